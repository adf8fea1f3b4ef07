"""Whole runs: Net.tla is model checked, and schedules it enumerates are performed with real sessions."""
import os
from concurrent.futures import ThreadPoolExecutor
from core import *
import sessions

KG_DESIGN, SG_DESIGN = ["h2kg", "h3kg", "h2b1kg", "h1b2kg"], ["h3sg", "h2b1sg"]
T_DESIGN = ["h2kgt", "h2b1kgt", "h2b1sgt"]
DEEP = ["h2b2kg", "h2b2sg"]


def designs(c, confs):
    def one(conf):
        return conf, design("Net", "Net.cfg", env={"CONF": conf}, workers=4)
    with ThreadPoolExecutor(3) as ex:
        for conf, d in ex.map(one, confs):
            d["config"] = "Net.cfg " + conf
            d["what"] = "network of several parties (Net.tla): safety and liveness"
            c.add(d)


# configuration -> number of simulated schedules (None: all of them are enumerated)
SIM = {"s3kg", "s3sg", "s4kg", "s4sg", "s2b1kg", "s2b1sg", "s3b1kg", "s2b2sg"}


def schedules(c, confs, seed=None):
    """confs: list of (configuration, how many)."""
    seed = SEED if seed is None else seed

    def one(x):
        conf, n = x
        a = ()
        if conf in SIM:
            a = ("-simulate", "num=%d" % n, "-depth", "100", "-seed", str(seed))
        r = tlc("Net", "NetSched.cfg", env={"CONF": conf}, workers=1, args=a)
        if not r.ok:
            raise CheckError("Net (schedules of %s) failed:\n%s" % (conf, "\n".join(l for l in r.out.split("\n") if "SCHED" not in l)[-3000:]))
        p = tmp("sched-" + conf)
        with open(p, "w") as f:
            f.write("\n".join(l for l in r.out.split("\n") if l.startswith('"SCHED')))
        return conf, n, p, r

    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, confs))
    path = tmp("net.ndjson")
    args = ["net", path, seed]
    for conf, n, p, r in rs:
        args += [conf, p, n]
        c.add({"what": "schedules of Net.tla, configuration %s (%s)" % (conf, "random walks" if conf in SIM else "exhaustive"),
               "states": r.distinct or r.generated, "transitions": r.generated, "wall_s": round(r.wall, 1)})
    crash = driver(args)
    for conf, n, p, r in rs:
        os.remove(p)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"args": args, "stderr": crash})
        return
    sessions.validate(c, path, "schedules of Net.tla performed with real sessions, judged by Session.tla")
    os.remove(path)
