#!/opt/venv/bin/python
"""
Mutation testing of the checks: small changes are made, one at a time, to scratch copies of /repo; those that the
repository's own tests let pass are given to the checks.  Everything runs as an unprivileged user in /tmp/mut.

usage: mutate.py gen FILE...          list the mutants
       mutate.py run OUT.jsonl [FILE...]   (env: WORKERS, SCALE, EVERY, PROPS)
"""
import warnings; warnings.simplefilter("ignore")
import ast, json, multiprocessing, os, random, re, shutil, subprocess, sys, time

ROOT = "/tmp/mut"
PY = "/opt/venv/bin/python"
FILES = ["multibag/amend.py", "multibag/restore.py", "multibag/split.py", "multibag/access/bagit.py",
         "multibag/access/extended.py", "multibag/access/multibag.py", "multibag/validate/bag.py",
         "multibag/validate/base.py", "multibag/validate/headbag.py", "multibag/validate/member.py",
         "multibag/constants.py"]
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="],
       ast.GtE: [">", "<"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
STRM = {"startswith": "endswith", "endswith": "startswith", "match": "search", "search": "match", "exists": "isdir",
        "isdir": "exists", "isfile": "exists", "append": "remove", "lstrip": "rstrip", "rstrip": "lstrip"}
DROP = {"strip", "lstrip", "rstrip", "lower", "normpath", "abspath", "sorted", "reversed", "list", "deepcopy", "set",
        "str", "bool", "_canon_path", "encode", "decode"}


def mutants(src):
    "yield (line, start, end, replacement, description)"
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = src.encode()

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = pos(n)
        return data[a:b].decode()
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def isdoc(n):
        p = parents.get(n)
        return isinstance(p, ast.Expr)

    def in_raise(n):
        while n in parents:
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, ast.stmt):
                return False
            n = parents[n]
        return False

    def in_issue(n):
        while n in parents and not isinstance(n, ast.stmt):
            n = parents[n]
            if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "_issue":
                return True
        return False

    def py2(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, ast.If) and "version_info" in text(n.test):
                return True
        return False
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or py2(n) or in_issue(n):
            continue
        a, b = pos(n)
        t = text(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                yield (n.lineno, a, b, "(%s %s %s)" % (text(n.left), r, text(n.comparators[0])), "cmp " + r)
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield (n.lineno, a, b, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            if len(n.values) > 1:
                for k in range(len(n.values)):
                    rest = [v for j, v in enumerate(n.values) if j != k]
                    o = " and " if isinstance(n.op, ast.And) else " or "
                    yield (n.lineno, a, b, "(" + o.join("(%s)" % text(v) for v in rest) + ")", "drop operand %d" % k)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield (n.lineno, a, b, "(%s)" % text(n.operand), "drop not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not in_raise(n):
            yield (n.lineno, a, b, "(%s)" % text(n.left), "left of +/-")
            yield (n.lineno, a, b, "(%s)" % text(n.right), "right of +/-")
        elif isinstance(n, ast.Constant) and not isdoc(n) and not in_raise(n):
            p = parents.get(n)
            if isinstance(p, ast.JoinedStr):
                continue
            if isinstance(n.value, bool):
                yield (n.lineno, a, b, str(not n.value), "bool")
            elif isinstance(n.value, int):
                yield (n.lineno, a, b, "(%d)" % (n.value + 1), "int+1")
                yield (n.lineno, a, b, "(%d)" % (n.value - 1), "int-1")
            elif isinstance(n.value, str) and isinstance(p, (ast.Call, ast.Compare, ast.BinOp, ast.Subscript)):
                if n.value and len(n.value) < 40:
                    yield (n.lineno, a, b, repr(n.value + "x"), "str+x")
                    yield (n.lineno, a, b, "''", "empty str")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in STRM:
                fa, fb = pos(f)
                yield (n.lineno, fb - len(f.attr), fb, STRM[f.attr], "call " + STRM[f.attr])
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if nm in DROP:
                if isinstance(f, ast.Attribute) and not n.args and not isinstance(f.value, ast.Name) or \
                   isinstance(f, ast.Attribute) and nm in ("strip", "lstrip", "rstrip", "lower", "encode", "decode"):
                    yield (n.lineno, a, b, text(f.value), "drop call " + nm)
                elif n.args:
                    yield (n.lineno, a, b, "(%s)" % text(n.args[0]), "drop call " + nm)
            if len(n.args) > 1 and not in_raise(n) and "log" not in t[:12]:
                la, lb = pos(n.args[-1])
                pa, pb = pos(n.args[-2])
                if not isinstance(n.args[-1], ast.Starred):
                    yield (n.lineno, pb, lb, "", "drop last argument")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield (n.lineno, a, b, text(n.value), "drop slice")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            ta, tb = pos(n.test)
            if "logger" not in text(n.test):
                yield (n.lineno, ta, tb, "False", "cond False")
                if not isinstance(n, ast.While):
                    yield (n.lineno, ta, tb, "True", "cond True")
        elif isinstance(n, (ast.comprehension,)):
            pass
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            for g in n.generators:
                for c in g.ifs:
                    ca, cb = pos(c)
                    yield (n.lineno, ca, cb, "True", "filter True")
        if isinstance(n, ast.stmt):
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) and \
               not isinstance(n.value, ast.Yield) and "log" not in t[:8]:
                yield (n.lineno, a, b, "pass", "drop statement")
            elif isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.AugAssign, ast.Delete)):
                yield (n.lineno, a, b, "pass", "drop " + type(n).__name__)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                yield (n.lineno, a, b, "pass", "drop assignment")
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                yield (n.lineno, a, b, "return None", "return None")


NOISE = re.compile(r"^\s*(s = \(|if len\((badfmt|badurl|replicated|missing)\) > 4|\w+\[3\] = |(badfmt|badurl|replicated|"
                   r"missing) = \w+\[:4\]|comm ?=|comm \+=|LOGGER|logger|msg [+=]|if logger|.*\.format\(len\(missing\))")
ACCESS = "P12 P11 P14 P16 P13 P09 P06 P08 P26 P10 P01 P02 P03 P05 P28 P29 P23 P19 P27 P15 P31 P32"
RELEVANT = {"split": "P02 P01 P03 P04 P25 P24 P30 P05 P13 P23 P31 P32",
            "restore": "P06 P28 P19 P21 P29 P13 P01 P26 P23 P07 P10 P16 P31 P32",
            "amend": "P08 P09 P10 P06 P26 P13 P07 P05 P23 P31 P32", "headbag": "P15 P26 P27 P03 P14 P08 P16 P32",
            "base": "P27 P15 P14", "member": "P15 P27 P14 P26", "bag": "P14 P27 P15", "constants": "P20 P26",
            "bagit": ACCESS, "extended": ACCESS, "multibag": ACCESS}


def all_mutants(files):
    out, seen = [], set()
    for f in files:
        src = open("/repo/" + f).read()
        data = src.encode()
        lines = src.split("\n")
        for line, a, b, rep, desc in mutants(src):
            if NOISE.match(lines[line - 1]):
                continue
            new = data[:a] + rep.encode() + data[b:]
            key = (f, new)
            if key in seen or new == data:
                continue
            seen.add(key)
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            out.append({"file": f, "line": line, "a": a, "b": b, "rep": rep, "desc": desc,
                        "old": data[a:b].decode()[:120]})
    return out


def demote():
    os.setgid(65534)
    os.setuid(65534)
    os.setsid()


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=demote)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def worker(wid, tasks, results, scores, props, scale, verif):
    root = "%s/w%d" % (ROOT, wid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/tmp")
    shutil.copytree("/repo", root + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    shutil.copytree(verif, root + "/verif", ignore=shutil.ignore_patterns(".git", "__pycache__", "seeded", "evidence"))
    os.makedirs(root + "/verif/evidence")
    subprocess.check_call(["chown", "-R", "65534:65534", root])
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": root + "/tmp", "LANG": "C.UTF-8", "TMPDIR": root + "/tmp",
           "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
    cenv = dict(env, VERIF_REPO=root + "/repo", VERIF_NPROC="1", VERIF_SCALE=str(scale), VERIF_SEED="1")
    base = json.load(open("/opt/vp/BASELINE.json"))
    while True:
        m = tasks.get()
        if m is None:
            results.put(None)
            return
        src = "%s/repo/%s" % (root, m["file"])
        data = open("/repo/" + m["file"], "rb").read()
        with open(src, "wb") as fd:
            fd.write(data[:m["a"]] + m["rep"].encode() + data[m["b"]:])
        t0 = time.time()
        rc, out = sh([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60"] + DESEL + ["tests"],
                     root + "/repo", env, 120)
        if rc != 0:
            m["result"] = "tests"
        else:
            m["result"] = "SURVIVED"
            rel = RELEVANT[os.path.basename(m["file"])[:-3]].split()
            order = sorted([p for p in rel if p in props], key=lambda p: -scores.get((m["file"], p), 0))
            odd = []
            for p in order:
                rc, out = sh(["unshare", "-Ur", "bash", "run.sh", p, "quick"], root + "/verif", cenv, 400)
                if rc == 1:
                    m["result"] = p
                    scores[(m["file"], p)] = scores.get((m["file"], p), 0) + 1
                    break
                if rc != 0:
                    odd.append((p, rc, out[-200:]))
            if odd:
                m["odd"] = odd
        m["time"] = round(time.time() - t0, 1)
        with open(src, "wb") as fd:
            fd.write(data)
        subprocess.call("rm -rf /tmp/mut/w%d/tmp/* ; find /dev/shm -maxdepth 1 -name 'mbverif.*' -mmin +12 "
                        "-user nobody -exec rm -rf {} +" % wid, shell=True)
        results.put(m)


DESEL = []

def main():
    if sys.argv[1] == "gen":
        ms = all_mutants(sys.argv[2:] or FILES)
        for m in ms:
            print(m["file"], m["line"], m["desc"], "|", m["old"].split("\n")[0][:60], "=>", m["rep"].split("\n")[0][:60])
        print(len(ms))
        return
    out = sys.argv[2]
    files = sys.argv[3:] or FILES
    verif = os.environ.get("VERIF", "/verif")
    ms = all_mutants(files)
    random.Random(7).shuffle(ms)
    ms = ms[int(os.environ.get("SKIP", "0")):]
    every = int(os.environ.get("EVERY", "1"))
    ms = ms[::every]
    if os.environ.get("NOOP"):
        ms = [{"file": files[0], "line": 0, "a": 0, "b": 0, "rep": "", "desc": "none", "old": ""}]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["rep"]))
    ms = [m for m in ms if (m["file"], m["a"], m["b"], m["rep"]) not in done]
    props = os.environ.get("PROPS")
    props = props.split(",") if props else ["P%02d" % i for i in range(1, 33) if i not in (17, 18, 22)]
    for t in ("tests/multibag/test_amend.py::TestAmender::test_amend_bag_with "
              "tests/multibag/test_amend.py::TestAmender::test_finalize "
              "tests/multibag/testing/test_mkdata.py::TestDatasetMaker::test_distribute").split():
        DESEL.extend(["--deselect", t])
    mgr = multiprocessing.Manager()
    scores = mgr.dict()
    tasks, results = multiprocessing.Queue(), multiprocessing.Queue()
    nw = int(os.environ.get("WORKERS", "8"))
    for m in ms:
        tasks.put(m)
    for i in range(nw):
        tasks.put(None)
    ps = [multiprocessing.Process(target=worker, args=(i, tasks, results, scores, props,
                                                       float(os.environ.get("SCALE", "0.3")), verif))
          for i in range(nw)]
    for p in ps:
        p.start()
    left = nw
    with open(out, "a") as fd:
        while left:
            m = results.get()
            if m is None:
                left -= 1
                continue
            fd.write(json.dumps(m) + "\n")
            fd.flush()


if __name__ == "__main__":
    main()
