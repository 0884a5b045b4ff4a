"""
Development helper: try changes against the check of one property each.

  trial.py FILE      FILE defines T = [(name, prop, [(file, old, new), ...]), ...]

Each change is made in a scratch copy of /repo; the tests are run there, then the quick check.
"""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seedtool

def one(t):
    name, prop, edits = t
    d, repo = seedtool.copy()
    try:
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return "NOMATCH %s: %r" % (name, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        tr = seedtool.tests(repo)
        res = []
        for p in prop.split(","):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_NOEVIDENCE="1")
            env.setdefault("VERIF_NPROC", "4")
            r = subprocess.run(["bash", HERE + "/run.sh", p, os.environ.get("TIER", "quick")],
                               capture_output=True, text=True, env=env)
            last = [l for l in r.stdout.strip().splitlines() if l][-2:]
            res.append("%s %s %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "BROKE"), p,
                                     last if os.environ.get("V") or r.returncode > 1 else ""))
        return "%-22s %-24s %s" % (name, tr, "; ".join(res))
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    T = ns["T"]
    if len(sys.argv) > 2:
        T = [t for t in T if t[0] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for r in ex.map(one, T):
            print(r, flush=True)
