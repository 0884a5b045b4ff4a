"""
Development helper: confirm the planted bugs in seeded/ (in scratch copies only).

  seedtool.py verify ID...   patch applies and touches only original source lines, the tests
                             still pass with it, the demo tells the two trees apart
  seedtool.py catch ID...    run the check of the bug's property on the changed tree
"""
import os, sys, json, shutil, subprocess, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "afb3cad"

def copy(patch=None):
    d = tempfile.mkdtemp(prefix="mbseed.", dir="/tmp")
    repo = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    if patch:
        subprocess.check_call(["git", "-C", repo, "apply", patch])
    return d, repo

def tests(repo):
    d = os.path.dirname(repo)
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
    with open(d + "/test.sh", "w") as fd:
        fd.write(s)
    out = subprocess.run(["bash", d + "/test.sh", d + "/t.json"], capture_output=True, text=True)
    return out.stdout.strip().splitlines()[-1]

def original(repo, sid, patch):
    "the lines taken away are lines of the original repository"
    cur, bad = None, []
    for l in open(patch):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + cur],
                                  capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].rstrip("\n") not in base:
                bad.append(l.rstrip())
    return bad

def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(os.path.join(HERE, "seeded")))
    rc = 0
    for sid in ids:
        sd = os.path.join(HERE, "seeded", sid)
        patch = os.path.join(sd, "patch.diff")
        prop = json.load(open(os.path.join(sd, "meta.json")))["property"]
        d, repo = copy(patch)
        try:
            if cmd == "verify":
                bad = original(repo, sid, patch)
                t = tests(repo)
                d1 = subprocess.run(["bash", sd + "/demo.sh"], cwd=repo, capture_output=True, text=True)
                d2, r2 = copy()
                d0 = subprocess.run(["bash", sd + "/demo.sh"], cwd=r2, capture_output=True, text=True)
                shutil.rmtree(d2)
                ok = not bad and t == "306 passed, 3 failed" and d0.returncode == 0 and d1.returncode != 0
                print("%s %s: tests %r demo clean=%d patched=%d %s" %
                      ("ok  " if ok else "BAD ", sid, t, d0.returncode, d1.returncode, bad or ""))
                if not ok:
                    print(d0.stdout[-500:], d0.stderr[-800:], d1.stdout[-300:], d1.stderr[-300:])
                    rc = 1
            else:
                for p in (os.environ.get("PROPS") or prop).split(","):
                    env = dict(os.environ, VERIF_REPO=repo, VERIF_NOEVIDENCE="1")
                    r = subprocess.run(["bash", HERE + "/run.sh", p, os.environ.get("TIER", "quick")],
                                       capture_output=True, text=True, env=env)
                    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "what" in l]
                    print("%s %s by %s: rc=%d %s" % ("CAUGHT" if r.returncode == 1 else "MISSED",
                                                     sid, p, r.returncode, r.stdout.strip().splitlines()[-2:]))
                    if r.returncode != 1:
                        rc = 1
        finally:
            shutil.rmtree(d)
    sys.exit(rc)

if __name__ == "__main__":
    main()
