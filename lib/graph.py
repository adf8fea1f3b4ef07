"""Replays the complete state graph of Engine.tla against real round engines (specification -> code)."""
import json, os
from concurrent.futures import ThreadPoolExecutor
from core import *

CONFS = ["keygen", "sign", "two", "three", "four", "fourtwo", "alone", "gen0", "gen1", "gen2"]

def props(kind, ev):
    if kind in ("accepts-ended",): return {"C08", "C11"}
    if kind.startswith("accepts-fault"): return {"C11", "C14", "C10"}
    if kind.startswith("accepts-"): return {"C08"}
    if kind in ("rejects-accepted",): return {"C08", "C09"}
    if kind == "rejects-ignored": return {"C08"}
    if kind == "process-early": return {"C10"}
    if kind in ("changed-done", "changed-err"): return {"C11"} | ({"C08"} if ev == "H" else {"C10"})
    if kind == "emit-unready": return {"C10"}
    if kind in ("emit-after-end", "emit-on-abort"): return {"C10", "C11"}
    if kind == "emit-count": return {"C10"}
    if kind == "aborts-clean": return {"C09", "C10", "C14", "C11"}
    if kind in ("ends-early", "no-end"): return {"C09", "C10", "C11"}
    if kind == "inputs": return {"C08", "C09", "C10"}
    if kind.startswith("blame"): return {"C14"}
    if kind.startswith("obs-"): return {"C11"}
    if kind == "reset-count": return {"C22", "C11"}
    if kind == "refused": return {"C21", "C09"}
    if kind == "crash": return {"C08", "C09", "C10", "C11", "C14", "C16"}
    raise CheckError("unknown kind " + kind)


def run(c, confs=None, pairs=None, walks=None):
    confs = confs or CONFS
    pairs = pairs if pairs is not None else (-1 if THOROUGH else 40)
    walks = walks or (20000 if THOROUGH else 500)

    def one(conf):
        r = tlc("EngineGraph", "EngineGraph.cfg", env={"CONF": conf}, workers=1)
        if not r.ok or "No error has been found" not in r.out:
            raise CheckError("EngineGraph does not hold for %s:\n%s" % (conf, "\n".join(l for l in r.out.split("\n") if "EDGE" not in l)[-3000:]))
        p = tmp("graph-" + conf)
        with open(p, "w") as f:
            f.write(r.out)
        return conf, p, r

    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, confs))
    out = tmp("graph.json")
    args = ["graph", out, SEED, pairs, walks]
    for conf, p, r in rs:
        args += [conf, p]
    crash = driver(args)
    for conf, p, r in rs:
        os.remove(p)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
        return
    for d, (conf, p, r) in zip(json.load(open(out)), rs):
        c.add({"what": "EngineGraph %s: complete state graph, replayed on real round engines" % conf, "states": r.distinct, "transitions": r.generated,
               "traces": d["paths"], "calls": d["steps"]})
        c.sample({"conf": conf, "walk": d["sample"]})
        for m in d["mismatch"]:
            if c.pid in props(m["kind"], m["ev"]):
                c.violation("%s on path %s of graph %s: %s" % (m["kind"], "; ".join(m["path"][-8:]), conf, m["note"][:300]), m)
    os.remove(out)
