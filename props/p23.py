"""
P23: operations are independent of each other, of earlier history and of how paths are written
"""
import os, sys, shutil, threading, time, traceback, pickle
from vlib import gen, oracle, mon, ops, hist, work
from vlib.ops import *
from multibag import validate
from multibag.validate import bag as vbag, headbag as vhead

ID = "P23"
LEVEL = "exploration"
RULE = ("the outcome of an operation (resulting tree, verdict, issues, views) is recorded when it "
        "runs by itself with absolute paths and compared with its outcome after random other "
        "operations (also failing and abandoned ones), with its paths written in other ways from "
        "other working directories, interleaved with other operations step by step, in several "
        "threads with a switch interval of 1 us (changes between threads seen by the monitor are "
        "counted) and in several processes; distinct by (mode, operations, spellings)")
ASSUMPTIONS = ["operations that save a bag change the working directory of the process for a "
               "moment (a property of the bagit library), so that they do not run in threads"]
N = {"quick": 700, "thorough": 3500}
REQUIRED = ["moved_operations", "spelled_operations", "within_a_bag", "repeated_operations", "threaded_operations",
            "thread_switches", "interleaved_steps", "forked_operations", "failed_operations"]

_seq = {"on": False, "last": None, "switches": 0, "events": 0}


def _hook(event, args):
    if _seq["on"] and event == "os.chdir":
        # (whatever else runs now is affected by it)
        _seq["chdirs"] = _seq.get("chdirs", 0) + 1
        time.sleep(0.004)
    if _seq["on"] and event == "open":
        t = threading.get_ident()
        _seq["events"] += 1
        if t != _seq["last"]:
            _seq["last"] = t
            _seq["switches"] += 1

_installed = []


def worker_init(wid):
    if not _installed:
        _installed.append(1)
        sys.addaudithook(_hook)


def tree(d):
    t = oracle.read_tree(d)
    return t.files, t.dirs


# ---------------------------------------------------------------- operations
# each is (name, paths by role, function of the written paths and the run directory)

class Job(object):
    saves = True
    def __init__(self, ctx, rng, tag):
        self.ctx, self.rng = ctx, rng
        self.dir = ctx.path(tag)
        os.mkdir(self.dir)
        self.paths = {}
        self.copy = None
        self.build()

    def sub(self):
        class C(object):
            pass
        c = C()
        c.path = lambda *p: os.path.join(self.dir, *p)
        c.count, c.note, c.check = self.ctx.count, self.ctx.note, self.ctx.check
        c.rng = self.rng
        return c

    def perform(self, rundir, spell=lambda p: p):
        with mon.quiet():
            os.mkdir(rundir)
        paths = dict(self.paths)
        if self.copy:
            tgt = os.path.join(rundir, os.path.basename(self.copy))
            with mon.quiet():
                shutil.copytree(self.copy, tgt)
            paths["target"] = tgt
        else:
            paths["target"] = rundir
        return self.run({k: spell(p) for k, p in paths.items()}, rundir)


class JSplit(Job):
    name = "split"
    saves = False
    def build(self):
        s = gen.random_spec(self.rng, nfiles=self.rng.choice([1, 3, 6]))
        self.paths["src"] = gen.write_bag(s, self.dir, self.rng)
        self.cls = self.rng.choice([WellPackedSplitter, NeighborlySplitter])
        self.mx = self.rng.choice([1, 100, 500, 3000])
        if self.rng.random() < 0.3:
            make_single_multibag(self.paths["src"])
        self.manual = self.rng.random() < 0.3

    def splitter(self):
        if self.manual:
            return ManualSplitter([])
        return self.cls(self.mx)

    def run(self, p, rundir):
        out = self.splitter().split(p["src"], p["target"])
        return [os.path.basename(x) for x in out], tree(rundir)

    def steps(self, rundir):
        with mon.quiet():
            os.mkdir(rundir)
        names = []
        for x in self.splitter().plan(self.paths["src"]).apply_iter(rundir):
            names.append(os.path.basename(x))
            yield
        self.stepped = names, tree(rundir)


class JConvert(Job):
    name = "convert"
    def build(self):
        s = gen.random_spec(self.rng, nfiles=self.rng.choice([0, 1, 3]))
        self.copy = gen.write_bag(s, self.dir, self.rng)

    def run(self, p, rundir):
        make_single_multibag(p["target"], "1", "urn:a")
        return tree(rundir)


class JAmend(Job):
    name = "amend"
    def build(self):
        h = hist.Hist(self.sub(), self.rng, nfiles=(0, 1, 3))
        h.first()
        if self.rng.random() < 0.4:
            h.amend()
        self.paths["amendee"] = h.paths[h.versions[-1].head]
        self.n = self.rng.choice([0, 1, 2])
        for i in range(self.n):
            p = h.write(h.spec())
            self.paths["m%d" % i] = p if self.rng.random() < 0.7 else h.put(p)
        os.mkdir(os.path.join(self.dir, "new"))
        self.copy = gen.write_bag(h.spec(), os.path.join(self.dir, "new"), self.rng)

    def run(self, p, rundir):
        amend_bag_with(p["amendee"], p["target"], "9", *[p["m%d" % i] for i in range(self.n)])
        return tree(rundir)


class JRestore(Job):
    name = "restore"
    def build(self):
        h = hist.build(self.sub(), self.rng.choice([0, 1, 2]), nfiles=(0, 1, 3))
        while h.versions[-1].version is None:
            h.amend()
        self.paths["head"] = h.paths[h.versions[-1].head]
        self.paths["store"] = h.store

    def run(self, p, rundir):
        dest = p["target"].rstrip("/") + "/restored"
        b = restore_bag(p["head"], dest, p["store"])
        return b.name, tree(rundir)


class JValidate(Job):
    name = "validate"
    saves = False
    def build(self):
        s = gen.random_spec(self.rng, nfiles=self.rng.choice([1, 3]))
        b = gen.write_bag(s, self.dir, self.rng)
        make_single_multibag(b)
        with mon.quiet():
            r = self.rng.random()
            if r < 0.3:
                with open(os.path.join(b, sorted(s.files)[0]), "ab") as fd:
                    fd.write(b"!")
            elif r < 0.5:
                with open(os.path.join(b, "multibag/member-bags.tsv"), "a") as fd:
                    fd.write("zzz\n")
            elif r < 0.6:
                os.remove(os.path.join(b, "multibag/file-lookup.tsv"))
            if self.rng.random() < 0.3:
                a = gen.serialize(b, b, self.rng.choice(gen.FORMS), "all", self.rng)
                shutil.rmtree(b)
                b = a
        self.paths["bag"] = b

    def run(self, p, rundir):
        out = []
        if os.path.isdir(p["bag"]):
            for v in (vbag.BagValidator(p["bag"]), vhead.HeadBagValidator(p["bag"])):
                r = v.validate()
                out.append((v.is_valid(), r.ok(), [(i.label, i.type, i.passed()) for i in r.applied()]))
        b = open_bag(p["bag"])
        out.append(bool(b.is_valid()))
        return out


class JRead(Job):
    name = "read"
    saves = False
    def build(self):
        s = gen.random_spec(self.rng, nfiles=self.rng.choice([1, 3, 6]))
        b = gen.write_bag(s, self.dir, self.rng)
        make_single_multibag(b)
        if self.rng.random() < 0.5:
            with mon.quiet():
                a = gen.serialize(b, b, self.rng.choice(gen.FORMS), "all", self.rng)
                shutil.rmtree(b)
            b = a
        self.paths["bag"] = b

    def run(self, p, rundir):
        def view(b):
            as_headbag(b)
            rows = sorted((d, sorted(s), sorted(f)) for d, s, f in b.walk())
            return (b.name, dict(b.info), dict(b.entries), rows,
                    {f: b.lookup_file(f) for f in b.payload_entries()},
                    [m.format() for m in b.member_bags()],
                    {d + "/" + f: b.sizeof((d + "/" + f).lstrip("/")) for d, s, fs in rows for f in fs},
                    sorted(b.nonstandard()), is_headbag(p["bag"]))
        out = [view(open_bag(p["bag"]))]
        if os.path.isdir(p["bag"]):
            out += [view(Bag(p["bag"])), view(HeadBag(p["bag"])), view(open_headbag(p["bag"], True))]
        else:
            out.append(view(open_headbag(p["bag"])))
        for k in range(1, len(out)):
            self.ctx.equal(out[k], out[0], "views of the same bag differ")
        return out


JOBS = [JSplit, JConvert, JAmend, JRestore, JValidate, JRead]
THREADED = [JSplit, JValidate, JRead]


# ---------------------------------------------------------------- spellings

def speller(rng, ctx):
    "another way of writing a path (from the present working directory)"
    kinds = []

    def spell(p):
        k = rng.choice(["rel", "slash", "dot", "double", "updown", "reldot", "rel/", "/.", "data/.."])
        q = p
        isdir = os.path.isdir(p)
        if k == "/." and isdir:
            q = p + rng.choice(["/.", "/./", "//."])
        if k == "data/.." and os.path.isdir(p + "/data"):
            q = p + rng.choice(["/data/..", "/data/../", "/./data/.."])
        if k.startswith("rel"):
            q = os.path.relpath(p)
            if k == "reldot":
                q = "./" + q
        if k == "dot":
            q = os.path.dirname(p) + "/./" + os.path.basename(p)
        if k == "double":
            q = os.path.dirname(p) + "//" + os.path.basename(p)
        if k == "updown":
            up = os.path.dirname(p)
            q = up + "/../" + os.path.basename(up) + "/" + os.path.basename(p)
        if k in ("slash", "rel/") and isdir:
            q += "/"
        kinds.append(k)
        return q
    return spell, kinds


def fail_something(ctx, rng, k):
    "an operation that fails or is abandoned half way"
    what = rng.choice(["nobag", "exists", "abandon", "noname", "missing"])
    d = ctx.path("failing%d" % k)
    os.mkdir(d)
    try:
        if what == "nobag":
            open_bag(os.path.join(d))
        else:
            s = gen.random_spec(rng, nfiles=3)
            s.name = "f"
            src = gen.write_bag(s, d, rng)
            if what == "exists":
                os.mkdir(os.path.join(d, "f_1.mbag"))
                WellPackedSplitter(100).split(src, d)
            elif what == "abandon":
                it = WellPackedSplitter(1).plan(src).apply_iter(d)
                next(it)
                it.close()
                raise ValueError()
            elif what == "noname":
                WellPackedSplitter(1).plan(src, iter([]))
            else:
                make_single_multibag(src)
                hb = HeadBag(src)
                hb.set_member_bags([MemberInfo("gone"), MemberInfo("f")])
                hb.save_member_bags()
                hb.save()
                restore_bag(src, os.path.join(d, "dest"))
    except Exception:
        ctx.count("failed_operations")
    return what


def same(ctx, got, want, what):
    ctx.check(got == want, "%s gave another result: %s" % (what, _diff(got, want)))


def _diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return _diff(x, y)
    from vlib.core import diff
    return diff(a, b)


def state():
    um = os.umask(0)
    os.umask(um)
    return os.getcwd(), um, dict(os.environ)


def case(ctx, i):
    rng = ctx.rng
    um = os.umask(rng.choice([0o022, 0o027, 0o002, 0o077]))
    try:
        _case(ctx, i, rng)
    finally:
        os.umask(um)


def _case(ctx, i, rng):
    st = state()
    mode = ["spelling", "spelling", "history", "threads", "interleave", "processes", "moved"][i % 7]
    globals()["_" + mode](ctx, rng)
    ctx.equal(state(), st, "working directory, umask or environment changed")
    ctx.sample({"mode": mode})


def _spelling(ctx, rng):
    job = rng.choice(JOBS)(ctx, rng, "job")
    want = job.perform(ctx.path("ref"))
    ctx.note(job.name)
    home = os.getcwd()
    for k in range(3):
        cwd = ctx.path(*rng.choice([(), ("job",), ("elsewhere%d" % k, "deep")]))
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        run = ctx.path("run%d" % k)
        spell, kinds = speller(rng, ctx)
        bags = sorted(p for p in job.paths.values() if os.path.isfile(p + "/bagit.txt"))
        if bags and rng.random() < 0.4:
            # from within one of the bags
            cwd = rng.choice(bags) + rng.choice(["", "/data"])
            os.chdir(cwd)
            ctx.count("within_a_bag")
        try:
            got = job.perform(run, spell)
        except Exception as ex:
            ctx.fail("%s with paths written as %s: %s" % (job.name, kinds, traceback.format_exc()[-1500:]))
        ctx.equal(os.getcwd(), cwd, "the working directory changed")
        os.chdir(home)
        same(ctx, got, want, "%s with paths written as %s" % (job.name, kinds))
        ctx.count("spelled_operations")
        ctx.feature("spelling", job.name, ",".join(sorted(set(kinds))))


def _moved(ctx, rng):
    "objects made with relative paths and used from another working directory"
    home = os.getcwd()
    what = rng.choice(["restore", "restore", "split", "edit", "read"])
    h = hist.build(ctx, rng.choice([0, 1]), nfiles=(1, 2, 3), forms=False)
    while h.versions[-1].version is None:
        h.amend()
    v = h.versions[-1]
    head = h.paths[v.head]
    dirs = [ctx.path("from", "x"), ctx.path("to")]
    out = []
    for k in range(2):
        run = ctx.path("run%d" % k)
        with mon.quiet():
            shutil.rmtree(run, ignore_errors=True)
            shutil.copytree(h.store, run)
            os.mkdir(run + "/out")
            os.makedirs(dirs[0], exist_ok=True)
            os.makedirs(dirs[1], exist_ok=True)
        bag = os.path.join(run, os.path.basename(head))
        os.chdir(dirs[0])
        w = os.path.relpath if k else (lambda p: p)
        try:
            if what == "restore":
                r = BagRestorer(w(bag), w(run + "/out/restored"))
                f = lambda: r.restore()
            elif what == "split":
                plan = WellPackedSplitter(200).plan(w(bag))
                f = lambda: [os.path.basename(p) for p in plan.apply_iter(run + "/out")]
            elif what == "edit":
                hb = HeadBag(w(bag))
                def f():
                    hb.add_member_bag("added")
                    hb.add_file_lookup("data/added", "added")
                    hb.save_member_bags()
                    hb.save_file_lookup()
                    hb.save()
            else:
                hb = rng.choice([HeadBag, open_headbag, open_bag])(w(bag))
                f = lambda: [(n, hb.open_text_file(n).read()) for n in
                             ("bagit.txt",)] + \
                            [hb.isfile(p) for p in sorted(hb.payload_entries())] + [bool(hb.is_valid())]
            os.chdir(dirs[1])
            got = f()
            ctx.equal(os.getcwd(), dirs[1], "the working directory changed")
            ctx.equal((os.listdir(dirs[0]), os.listdir(dirs[1])), ([], []),
                      "files appeared in the working directory")
        finally:
            os.chdir(home)
        out.append((got if isinstance(got, list) else None, tree(run)))
    same(ctx, out[1], out[0], "%s with an object made in another working directory" % what)
    ctx.count("moved_operations")
    ctx.feature("moved", what)


def _history(ctx, rng):
    job = rng.choice(JOBS)(ctx, rng, "job")
    want = job.perform(ctx.path("ref"))
    done = []
    for k in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.5:
            done.append(fail_something(ctx, rng, k))
        else:
            j = rng.choice(JOBS)(ctx, rng, "other%d" % k)
            j.perform(ctx.path("orun%d" % k))
            done.append(j.name)
        same(ctx, job.perform(ctx.path("again%d" % k)), want, "%s after %s" % (job.name, done))
        ctx.count("repeated_operations")
    ctx.feature("history", job.name, ",".join(done))


def _threads(ctx, rng):
    jobs = [rng.choice(THREADED)(ctx, rng, "job%d" % k) for k in range(rng.choice([2, 3, 4]))]
    want = [j.perform(ctx.path("ref%d" % k)) for k, j in enumerate(jobs)]
    # the same input may be in use by several threads at once
    runs = [(k, r) for k in range(len(jobs)) for r in range(rng.choice([1, 2]))]
    got, bad = {}, []
    rel = [rng.random() < 0.5 for j in jobs]
    ctx.count("relative_in_threads", sum(rel))
    start = threading.Barrier(len(runs))

    def go(k, r):
        try:
            start.wait()
            got[(k, r)] = jobs[k].perform(ctx.path("t%d_%d" % (k, r)), os.path.relpath if rel[k] else lambda p: p)
        except BaseException:
            bad.append("%s: %s" % (jobs[k].name, traceback.format_exc()[-1500:]))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    _seq.update(on=True, last=None, switches=0, events=0)
    try:
        ts = [threading.Thread(target=go, args=x) for x in runs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        _seq["on"] = False
        sys.setswitchinterval(old)
    ctx.count("thread_switches", _seq["switches"])
    ctx.count("monitored_opens", _seq["events"])
    ctx.check(not bad, "an operation failed when run in threads: " + "; ".join(bad[:1]))
    for k, r in runs:
        same(ctx, got[(k, r)], want[k], "%s in a thread along with %s" %
             (jobs[k].name, [j.name for j in jobs]))
        ctx.count("threaded_operations")
    ctx.feature("threads", ",".join(sorted(j.name for j in jobs)), len(runs))


def _interleave(ctx, rng):
    jobs = [JSplit(ctx, rng, "job%d" % k) for k in range(rng.choice([2, 3]))]
    if rng.random() < 0.4:
        jobs.append(jobs[0])           # the same source, twice at a time
    want = [j.perform(ctx.path("ref%d" % k)) for k, j in enumerate(jobs)]
    other = rng.choice([JConvert, JAmend, JRestore, JRead])(ctx, rng, "between")
    wantb = other.perform(ctx.path("refb"))
    its, outs = [], {}
    for k, j in enumerate(jobs):
        its.append((k, j.steps(ctx.path("st%d" % k))))
    live = list(its)
    n = 0
    while live:
        k, it = rng.choice(live)
        try:
            next(it)
        except StopIteration:
            outs[k] = jobs[k].stepped
            live.remove((k, it))
        ctx.count("interleaved_steps")
        if rng.random() < 0.3 and n < 3:
            same(ctx, other.perform(ctx.path("b%d" % n)), wantb, "%s between the steps of splits" % other.name)
            n += 1
    for k in outs:
        same(ctx, outs[k], want[k], "a split interleaved with other operations")
    ctx.feature("interleave", other.name, len(jobs))


def _processes(ctx, rng):
    jobs = [rng.choice(JOBS)(ctx, rng, "job%d" % k) for k in range(2)]
    runs = [(k, r) for k in range(2) for r in range(2)]
    pids = []
    for k, r in runs:
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                res = jobs[k].perform(ctx.path("p%d_%d" % (k, r)))
                with mon.quiet():
                    with open(ctx.path("res%d_%d" % (k, r)), "wb") as fd:
                        pickle.dump(res, fd)
                rc = 0
            except BaseException:
                with mon.quiet():
                    with open(ctx.path("err%d_%d" % (k, r)), "w") as fd:
                        fd.write(traceback.format_exc()[-1500:])
            finally:
                os._exit(rc)
        pids.append(pid)
    stats = [os.waitpid(p, 0)[1] for p in pids]
    want = [j.perform(ctx.path("ref%d" % k)) for k, j in enumerate(jobs)]
    for (k, r), stt in zip(runs, stats):
        err = ctx.path("err%d_%d" % (k, r))
        ctx.check(stt == 0, "%s failed beside other processes: %s" %
                  (jobs[k].name, open(err).read() if os.path.exists(err) else stt))
        with open(ctx.path("res%d_%d" % (k, r)), "rb") as fd:
            same(ctx, pickle.load(fd), want[k], "%s beside other processes" % jobs[k].name)
        ctx.count("forked_operations")
    ctx.feature("processes", ",".join(sorted(j.name for j in jobs)))
