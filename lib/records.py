"""Judges recorded calls of the stateless parts by Records.tla (specification -> code for the generated vectors)."""
import json, os, re
from core import *

MIS = re.compile(r'<<"MISMATCH", (\d+), "([\w-]+)">>')

# property -> which disagreements are about it; a kind may belong to several
def props(kind, k, r):
    if kind.startswith("crash-"):
        s = {"wire": {"C15", "C16"}, "weq": {"C15"}, "wmake": {"C15"}, "poly": {"C15", "C16"}, "point": {"C16", "C23"},
             "op": {"C23"}, "peq": {"C23"}, "lagrange": {"C20"}, "deal": {"C20"}, "newkg": {"C21"}, "newsg": {"C21"},
             "newpub": {"C21"}, "ids": {"C21"}, "slice": {"C21", "C24"}, "id": {"C18", "C21"}, "idtext": {"C16", "C18"}, "idshort": {"C16", "C18"},
             "sharebin": {"C16", "C18"}, "sharejson": {"C16", "C18"}, "pubjson": {"C16", "C18"}, "pubeq": {"C18"}, "shareeq": {"C18"},
             "keyjson": {"C16", "C18"}, "sigbin": {"C16", "C18"}, "sigeq": {"C18"}, "verify": {"C19"}, "clikeygen": {"C24"}, "clisign": {"C24"}, "fuzz": {"C16"}, "ulen": {"C23"}}
        return s[k]
    if kind == "slow": return {"C16"}
    by = {"wire": {"C15"}, "weq": {"C15"}, "wmake": {"C15"}, "poly": {"C15"}, "point": {"C23"}, "op": {"C23"}, "peq": {"C23"}, "ulen": {"C23"},
          "lagrange": {"C20"}, "deal": {"C20"}, "newkg": {"C21"}, "newsg": {"C21"}, "newpub": {"C21"}, "ids": {"C21"}, "slice": {"C21", "C24"},
          "id": {"C18", "C21"}, "idtext": {"C18"}, "idshort": {"C18"}, "sharebin": {"C18"}, "sharejson": {"C18"}, "pubjson": {"C18"}, "pubeq": {"C18"},
          "shareeq": {"C18"}, "keyjson": {"C18"}, "sigbin": {"C18"}, "sigeq": {"C18"}, "verify": {"C19"}, "clikeygen": {"C24"}, "clisign": {"C24"}}[k]
    by = set(by)
    if kind == "deal-random": return {"C26"}
    if kind == "deal-loose": by |= {"C26"}
    if kind in ("ed-encoding",): by |= {"C19"}
    if kind == "alias" or kind.endswith("-changed"): by |= {"C17"} if k in ("wire", "verify", "lagrange", "deal") else set()
    return by


def vectors():
    """The boundary vectors of the wire format, enumerated by TLC."""
    r = tlc("WireGen", "WireGen.cfg")
    if not r.ok or "No error has been found" not in r.out:
        raise CheckError("WireGen failed\n" + r.out[-3000:])
    vec = [l for l in r.out.split("\n") if '"VEC ' in l]
    if len(vec) != r.distinct:
        raise CheckError("WireGen printed %d of %d vectors" % (len(vec), r.distinct))
    p = tmp("vectors")
    with open(p, "w") as f:
        f.write("\n".join(vec))
    return p, {"model": "WireGen", "states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}


def judge(c, path, label, only=None):
    lines = read_lines(path)
    if not lines:
        raise CheckError("no calls were recorded")
    r = tlc("Records", "Records.cfg", env={"TRACE": path})
    if not r.ok:
        raise CheckError("TLC failed on the recorded calls:\n" + r.out[-4000:])
    if r.distinct != 2 * len(lines):
        raise CheckError("TLC visited %d states for %d records" % (r.distinct, len(lines)))
    kinds = {}
    for l in lines:
        k = json.loads(l)["k"]
        kinds[k] = kinds.get(k, 0) + 1
    c.add({"what": label, "states": r.distinct, "transitions": r.generated, "traces": len(lines), "calls": kinds, "wall_s": round(r.wall, 1)})
    for l in lines[:2]:
        c.sample(json.loads(l) if len(l) < 2500 else l[:2500])
    other, seen = {}, {}
    for m in MIS.finditer(r.out):
        i, kind = int(m.group(1)), m.group(2)
        rec = json.loads(lines[i - 1])
        if c.pid in props(kind, rec["k"], rec):
            seen[kind] = seen.get(kind, 0) + 1
            if seen[kind] > 5: continue
            txt = json.dumps(rec)
            c.violation("%s: %s" % (kind, txt[:500]), {"kind": kind, "record": rec})
        else:
            other[kind] = other.get(kind, 0) + 1
    if other:
        c.extra["other_properties_disagreements"] = other


def run(c, fams, label="recorded calls judged by Records.tla", vecs=False, seed=None):
    path = tmp("records.ndjson")
    args = ["records", path, SEED if seed is None else seed]
    vp = None
    if vecs:
        vp, part = vectors()
        c.add(part)
        args += ["wirefile", vp]
    for f, n in fams:
        args += [f, n]
    crash = driver(args)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
        return
    judge(c, path, label)
    os.remove(path)
    if vp: os.remove(vp)
