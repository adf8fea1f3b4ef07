"""Builds the command-line tools, runs them in a scratch directory and judges what they print and write."""
import shutil, tempfile
from core import *
import records


def run(c, runs, sizes):
    bins = []
    for name in ("keygen", "signer"):
        out = os.path.join(BUILD, "cli-" + name)
        sh(["go", "build", "-mod=readonly", "-o", out, "./cmd/" + name], env=dict(goenv(), GOFLAGS=""), cwd=REPO, timeout=600)
        bins.append(out)
    scratch = tempfile.mkdtemp(prefix="cli", dir=BUILD)
    path = tmp("cli.ndjson")
    try:
        crash = driver(["cli", path, SEED] + bins + [scratch, runs] + ["%d:%d" % s for s in sizes], timeout=5000 if THOROUGH else 800)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if crash:
        c.violation("the code under test crashed the process: " + crash[:600], {"stderr": crash})
        return
    records.judge(c, path, "runs of the command-line tools judged by Records.tla")
    os.remove(path)
