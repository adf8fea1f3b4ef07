"""Trace validation of protocol sessions: driver -> Session.tla."""
import json, os, re
from core import *

KG, SG = {"C01", "C02"}, {"C04", "C05"}
# these say how secrets are chosen and kept, nothing about the behaviour
SECRETS = ("rand-", "loose-", "leak-", "mem-")

# what each kind of disagreement says about the properties (keygen, sign)
def props(kind, ev, proto, note=""):
    p = set(props1(kind, ev, proto, note))
    return p | {"C25"} if ev == "D" and not kind.startswith(SECRETS) else p


def props1(kind, ev, proto, note=""):
    kg = proto == "keygen"
    done = {"C01"} if kg else {"C04"}
    sound = {"C02"} if kg else {"C05"}
    both = done | sound
    k = kind
    if k == "decode-accepts": return {"C15", "C16"}
    if k == "decode-rejects": return {"C15"} | done | {"C09"}
    if k == "accepts-ended": return {"C08", "C11"}
    if k in ("accepts-foreign", "accepts-type"): return {"C08"}
    if k == "accepts-duplicate": return {"C08"}
    if k == "rejects-early": return {"C08", "C09"} | done
    if k == "rejects-accepted": return {"C08", "C09"} | done
    if k == "rejects-ignored": return {"C08"}
    if k in ("changed-done", "changed-err"):
        s = {"C11"}
        if ev == "H": s |= {"C08", "C16"}
        if ev == "P": s |= {"C10"}
        if ev == "O" and k == "changed-err": s |= {"C14"}
        return s
    if k == "emit-unready": return {"C10"} | (set() if kg else {"C06"})
    if k == "emit-after-end": return {"C10", "C11"} | (set() if kg else {"C06"})
    if k == "emit-invalid": return {"C10", "C15"} | done
    if k in ("emit-count", "emit-type", "emit-from", "emit-to"): return {"C10"} | done | (set() if kg else {"C06"})
    if k == "emit-share": return {"C01"}
    if k == "emit-degree": return {"C01", "C20"}
    if k == "emit-proof": return {"C01", "C03"}
    if k == "emit-identity": return done | {"C26"} | (set() if kg else {"C06"})
    if k == "emit-same-nonce": return {"C06", "C26"}
    if k == "emit-sigshare": return {"C04", "C07"}
    if k == "accepts-fault-proof": return {"C02", "C03", "C14"}
    if k.startswith("accepts-fault"): return sound | {"C14"}
    # the failed contribution passed its own check: only what was made from it did not
    if k == "blame-nobody": return {"C14"} | (set() if kg else {"C05"})
    if k.startswith(("blame", "say-")): return {"C14"}
    if k == "emit-on-abort": return sound | {"C10", "C11"}
    if k == "aborts-clean": return both | {"C14"} | ({"C03"} if kg else {"C07"}) | {"C09"}
    if k in ("ends-early", "no-end"): return done | {"C09", "C10", "C11"}
    if k.startswith("obs-"): return {"C11"} | (sound if k in ("obs-both", "obs-early") else set()) | (done if k == "obs-neither" else set())
    if k == "loose-nonce": return {"C06", "C26"}
    if k.startswith("loose-"): return {"C26"}
    if k.startswith("rand-") or k.startswith("leak-"): return {"C26"}
    if k.startswith("mem-"): return {"C22"}
    if k == "object-changed": return {"C17"}
    if k.startswith("drive-"): return {"C25"}
    if k in ("timeout-early", "timeout-late"): return {"C12"}
    if k == "no-timeout": return {"C12"}
    if k == "timeout-blame": return {"C12", "C14"}
    if k == "out-encoding": return {"C19", "C04"}
    if k in ("out-R", "out-S"): return {"C07"} | done
    if k == "out-invalid": return {"C04", "C05"}
    if k in ("out-lib-verify", "out-std-verify"): return {"C04", "C19"}
    if k.startswith("out-"): return done
    if k == "incomplete": return done | {"C09"}
    if k in ("disagree", "no-reconstruct"): return done
    if k == "crash": return done | sound | {"C16", "C08", "C09", "C10", "C11", "C14", "C03", "C06", "C07", "C25", "C12"}
    if k == "refused": return done | {"C21"}
    raise CheckError("unknown kind " + k)


MIS = re.compile(r'<<"MISMATCH", (\d+), (\d+), "(\w+)", "([\w-]+)">>')


def condense(s, upto=None):
    """A readable version of a session."""
    ev = []
    for i, e in enumerate(s["ev"], 1):
        if upto and i > upto: break
        d = {"e": e["e"], "p": e["p"]}
        if e["e"] == "H": d.update(b=e["b"][:10] + ".." if len(e["b"]) > 10 else e["b"], dec=e["dec"], ok=e["ok"])
        if e["e"] == "P": d["out"] = [x[:10] for x in e["out"]]
        if e.get("note"): d["note"] = e["note"]
        d["done"] = e["o"]["done"]; d["err"] = e["o"]["err"]
        ev.append(d)
    return {"id": s["id"], "family": s["family"], "proto": s["proto"], "parties": s["parties"], "t": s["t"], "live": s["live"], "ev": ev[:40]}


def validate(c, path, label, only=None, among=None):
    """Judges the sessions of a file by the specification; adds violations of c.pid."""
    lines = read_lines(path)
    if not lines:
        raise CheckError("no sessions were recorded")
    r = tlc("Session", "Session.cfg", env={"TRACE": path})
    if not r.ok:
        raise CheckError("TLC failed on the recorded sessions:\n" + r.out[-4000:])
    ss = {}
    want = 0
    for l in lines:
        s = json.loads(l)
        ss[s["id"]] = s
        want += len(s["ev"]) + 1 + sum(e["e"] == "D" for e in s["ev"])
    if r.distinct != want:
        raise CheckError("TLC visited %d states, the traces have %d" % (r.distinct, want))
    fams = {}
    for s in ss.values():
        f = s["family"].split()[0]
        fams[f] = fams.get(f, 0) + 1
    c.add({"what": label, "states": r.distinct, "transitions": r.generated, "traces": len(ss), "families": fams,
           "events": want - len(ss), "wall_s": round(r.wall, 1)})
    for i in list(ss)[:1]:
        c.sample(condense(ss[i]))
    seen = set()
    other = {}
    for m in MIS.finditer(r.out):
        sid, k, ev, kind = int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)
        s = ss[sid]
        note = s["ev"][k - 1].get("note", "")
        if among and not kind.startswith(among): continue
        if c.pid in props(kind, ev, s["proto"]) or (only and only(s, kind) and not kind.startswith(SECRETS)):
            key = (sid, kind)
            if key in seen: continue
            seen.add(key)
            c.violation("%s in session %d (%s) at event %d (%s) %s" % (kind, sid, s["family"], k, ev, note[:300]),
                        {"kind": kind, "at": k, "session": s, "condensed": condense(s, k)})
        else:
            other[kind] = other.get(kind, 0) + 1
    if other:
        c.extra["other_properties_disagreements"] = other


def timed(c, count, ms, seed=None):
    """Sessions with timeouts in real time."""
    path = tmp("timed.ndjson")
    args = ["timed", path, SEED if seed is None else seed, count, ms] + (["slow"] if c.pid == "C12" else [])
    crash = driver(args)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
        return
    validate(c, path, "sessions with timeouts in real time judged by Session.tla", only=lambda s, kind: c.pid == "C12")
    os.remove(path)


def virtual(c, count, seed=None):
    """Sessions with timeouts of all magnitudes on a simulated clock: no slack."""
    seed = SEED if seed is None else seed
    path = tmp("virtual.ndjson")
    for i in range(0, count, 2000):
        args = ["virtual", path, seed * 1000 + i // 2000, min(2000, count - i)]
        crash = driver(args, env={"GODEBUG": "asynctimerchan=0"})
        if crash:
            c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
            return
        if os.path.getsize(path) == 0:
            c.extra["simulated_clock"] = "not used: no session ends at the very moment of its deadline"
            return
        validate(c, path, "sessions with timeouts on a simulated clock judged by Session.tla, to the tick", only=lambda s, kind: c.pid == "C12")
        os.remove(path)


def nosource(c, count):
    """Sessions whose random source fails: they may end in any way, but not go on with secrets from elsewhere."""
    path, one = tmp("nosource.ndjson"), tmp("nosource.one")
    died = 0
    for i in range(count):
        if os.path.exists(one): os.remove(one)
        try:
            died += bool(driver(["nosource", one, SEED, i]))
        except CheckError:
            died += 1
        if os.path.exists(one):
            with open(path, "a") as f, open(one) as g:
                f.write(g.read())
    c.extra["processes_ended_by_failing_source"] = died
    if died < count:
        validate(c, path, "sessions whose random source fails, judged by Session.tla", among=("loose-", "rand-", "leak-", "emit-identity", "emit-same"))
        os.remove(path)


def run(c, fams, label="protocol sessions judged by Session.tla", only=None, seed=None):
    """fams: list of (family, count)."""
    path = tmp("sessions.ndjson")
    args = ["session", path, SEED if seed is None else seed]
    for f, n in fams:
        args += [f, n]
    crash = driver(args)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
        # keep what was recorded before the crash out of the verdict
        return
    validate(c, path, label, only)
    os.remove(path)
