"""Concurrent use: race-detecting runs whose histories must be explained by TraceLin.tla or Session.tla."""
import json, os, re
from core import *
import sessions


def judge(c, path, count, what, race):
    """Every history in the file must be explained by TraceLin.tla."""
    hs = {}
    for l in read_lines(path):
        h = json.loads(l)
        hs[h["id"]] = h
    if len(hs) != count and not any(h["hang"] for h in hs.values()):
        raise CheckError("%d histories instead of %d" % (len(hs), count))
    ok = {}
    for i, h in hs.items():
        if h["hang"]:
            c.violation("hang or panic in history %d (%s): %s" % (i, h.get("note", ""), h["hang"]), h)
        else:
            ok[i] = h
    if ok:
        with open(path, "w") as f:
            for h in ok.values():
                f.write(json.dumps(h) + "\n")
        r = tlc("TraceLin", "TraceLin.cfg", env={"TRACE": path})
        if not r.ok or "No error has been found" not in r.out:
            raise CheckError("TLC failed on the histories:\n" + r.out[-4000:])
        seen = {int(m) for m in re.findall(r'<<"EXPLAINED", (\d+)>>', r.out)}
        for i in sorted(set(ok) - seen):
            c.violation("history %d (%s) is not explained by any sequential order of its calls" % (i, ok[i].get("note", "")), ok[i])
        c.add({"what": what, "states": r.distinct, "transitions": r.generated, "traces": len(hs),
               "calls": sum(len(h["ops"]) for h in ok.values()), "race_detector": race, "wall_s": round(r.wall, 1)})
        c.sample(next(iter(ok.values())))
    os.remove(path)


def record(c, args, race):
    crash = driver(args, race=race)
    if crash:
        c.violation("data race or crash in concurrent use: " + crash[:700], {"args": args, "stderr": crash})
    return not crash


def histories(c, count, race=True, seed=None):
    path = tmp("hist.ndjson")
    if record(c, ["conc", path, SEED if seed is None else seed, count], race):
        judge(c, path, count, "concurrent histories explained by TraceLin.tla", race)


def busy(c, length, count, race=False):
    """Performs schedules of Busy.tla: calls and the timeout arriving while processing is held up."""
    r = tlc("Busy", "Busy.cfg", env={"BUSYLEN": str(length)})
    if not r.ok:
        raise CheckError("Busy.tla:\n" + r.out[-3000:])
    sched = tmp("busy.sched")
    with open(sched, "w") as f:
        f.write(r.out)
    total = len(set(re.findall(r'^"BUSY .*$', r.out, re.M)))
    count = min(count, total)
    path = tmp("busy.ndjson")
    if record(c, ["busy", path, SEED, sched, count], race):
        judge(c, path, count, "%d of the %d schedules of length %d of Busy.tla performed, explained by TraceLin.tla" % (count, total, length), race)
    os.remove(sched)


def crowd(c, sizes):
    """Sequential histories in groups of the given sizes."""
    path = tmp("crowd.ndjson")
    if record(c, ["crowd", path, SEED] + list(sizes), False):
        judge(c, path, len(sizes), "sequential histories in groups of %s parties explained by TraceLin.tla" % ", ".join(map(str, sizes)), False)


def lifecycle(c):
    """The life of a session with its timeout, and that the specification tells the stale timer apart."""
    c.add(design("Lifecycle", "Lifecycle.cfg"))
    c.add(design("Lifecycle", "LifecycleZero.cfg"))
    r = tlc("Lifecycle", "LifecycleBad.cfg")
    if "Invariant NeverEarly is violated" not in r.out:
        raise CheckError("Lifecycle.tla does not refute the timer that is not checked again:\n" + r.out[-3000:])
    c.add({"what": "Lifecycle.tla without the second look at the clock is refuted (NeverEarly)", "states": r.distinct, "transitions": r.generated})


def real(c, count, race=True, seed=None):
    path = tmp("concreal.ndjson")
    args = ["concreal", path, SEED if seed is None else seed, count]
    crash = driver(args, race=race)
    if crash:
        c.violation("data race or crash in concurrent use: " + crash[:700], {"args": args, "stderr": crash})
        return
    sessions.validate(c, path, "protocol sessions used from many goroutines, judged by Session.tla", only=lambda s, kind: c.pid == "C13")
    os.remove(path)


def shared(c, count):
    """Sessions running at the same time from the same key share, public data, party list and message."""
    path = tmp("concshare.ndjson")
    if record(c, ["concshare", path, SEED, count], True):
        sessions.validate(c, path, "concurrent sessions with shared key material, judged by Session.tla", only=lambda s, kind: c.pid in ("C13", "C17"))
        os.remove(path)
