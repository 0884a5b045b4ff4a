import os,sys,json,subprocess,shutil,tempfile
SEED="/verif/seeded"
H='''import os, sys, hashlib, shutil, tempfile, atexit, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
T = tempfile.mkdtemp(prefix="mbdemo.")
REPO = os.getcwd()
atexit.register(shutil.rmtree, T, True)
os.chdir(T)

def put(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as fd:
        fd.write(data if isinstance(data, bytes) else data.encode("utf8"))

def mkbag(name, files, info=None, algs=("sha256",), dirs=()):
    """write a valid bag into the scratch directory; return its path"""
    root = os.path.join(T, name)
    os.makedirs(os.path.join(root, "data"))
    for p, d in files.items():
        put(os.path.join(root, p), d)
    for d in dirs:
        os.makedirs(os.path.join(root, d))
    put(os.path.join(root, "bagit.txt"),
        "BagIt-Version: 0.97\\nTag-File-Character-Encoding: UTF-8\\n")
    pay = dict((p, d) for p, d in files.items() if p.startswith("data/"))
    size = sum(os.path.getsize(os.path.join(root, p)) for p in pay)
    lines = list(info or [])
    lines.append("Payload-Oxum: %d.%d" % (size, len(pay)))
    put(os.path.join(root, "bag-info.txt"), "\\n".join(lines) + "\\n")
    remanifest(root, algs)
    return root

def remanifest(root, algs=("sha256",)):
    """(re-)write the manifests"""
    for f in os.listdir(root):
        if f.startswith(("manifest-", "tagmanifest-")):
            os.remove(os.path.join(root, f))
    allf = []
    for r, ds, fs in os.walk(root):
        allf += [os.path.relpath(os.path.join(r, f), root) for f in fs]
    for pre in ("manifest", "tagmanifest"):
        for alg in algs:
            with open(os.path.join(root, "%s-%s.txt" % (pre, alg)), "w") as fd:
                for p in sorted(allf) + (["manifest-%s.txt" % a for a in algs] if pre == "tagmanifest" else []):
                    if p.startswith("data/") == (pre == "manifest"):
                        fd.write("%s  %s\\n" % (hashlib.new(alg, open(os.path.join(root, p), "rb").read())
                                                .hexdigest(), p))

def tree(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out

def content(root):
    return dict((p, d) for p, d in tree(root).items()
                if not p.startswith(("manifest-", "tagmanifest-")) and
                p not in ("bagit.txt", "bag-info.txt", "fetch.txt") and not p.startswith("multibag/"))

def info(root):
    out = {}
    last = None
    for l in open(os.path.join(root, "bag-info.txt"), encoding="utf8"):
        if l[:1] in " \\t" and last:
            out[last][-1] += " " + l.strip()
        elif ":" in l:
            last, v = l.split(":", 1)
            out.setdefault(last, []).append(v.strip())
    return out

def expect(cond, msg):
    if not cond:
        print("FAILED: " + msg)
        sys.exit(1)
'''
def seed(id, prop, edits, demo, needs, breaks):
    d=os.path.join(SEED,id)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    t=tempfile.mkdtemp(prefix="mk.",dir="/dev/shm")
    r=t+"/repo"
    subprocess.check_call(["git","clone","-q","/repo",r])
    for f,a,b in edits:
        p=r+"/"+f; s=open(p).read()
        assert s.count(a)==1,(id,s.count(a),a)
        open(p,"w").write(s.replace(a,b))
    diff=subprocess.run(["git","-C",r,"diff"],capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    shutil.rmtree(t)
    open(d+"/h.py","w").write(H)
    open(d+"/demo.py","w").write("from h import *\n"+demo.lstrip("\n"))
    open(d+"/demo.sh","w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
