"""
P30: how a bag is split depends only on its content and the settings
"""
import os, sys, shutil, json, subprocess
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P30"
LEVEL = "exploration"
RULE = ("copies of a random bag - elsewhere, with files created in other orders, with other times and permissions "
        "- are planned and split with the same settings, with new and used splitters; the distributions "
        "must be the same; distinct by (splitter and settings, differences of the copies, number of output bags)")
ASSUMPTIONS = ["the source is an unserialized bag (the splitters document no other)"]
N = {"quick": 480, "thorough": 4000}
REQUIRED = ["plans_compared", "splits_compared", "ties", "copies_in_other_order", "reused_splitters",
            "several_bags", "empty_dirs", "other_processes", "alike_names"]


def dist(plan):
    "the distribution of a plan: [(name, set of paths, size of content)]"
    out = []
    for m in plan.manifests():
        out.append((m["name"], sorted(m["contents"]), m.get("totalsize"), bool(m["ishead"])))
    return out


def made(paths):
    "the distribution as found in output bags"
    out = []
    for p in paths:
        t = oracle.read_tree(p)
        out.append((os.path.basename(p), {k: v for k, v in t.files.items() if not oracle.is_special(k)},
                    sorted(t.dirs), oracle.manifests(t)[0], oracle.info_of(t)))
    return out


ELSEWHERE = """
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
from props import p30
from vlib.ops import *
cls, kw, src, base = json.loads(sys.argv[2])
print(json.dumps(p30.dist({"WellPackedSplitter": WellPackedSplitter,
                           "NeighborlySplitter": NeighborlySplitter}[cls](**kw).plan(src, base))))
"""


def elsewhere(ctx, rng, cls, kw, src, base):
    "the distribution that another process (with its own hash seed) comes to"
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(2 ** 32)), PYTHONDONTWRITEBYTECODE="1")
    with mon.quiet():
        r = subprocess.run([sys.executable, "-c", ELSEWHERE, json.dumps(sys.path), json.dumps([cls.__name__, kw, src, base])],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    ctx.check(r.returncode == 0, "planning in another process failed: " + r.stderr.decode("utf-8", "replace")[-800:])
    ctx.count("other_processes")
    return [tuple(x) for x in json.loads(r.stdout.decode("utf-8").strip().split("\n")[-1])]


def make_splitter(rng, s):
    sizes = [len(d) for d in s.files.values()]
    total = sum(sizes) or 1
    mx = rng.choice([1, 100, 200, max(sizes or [1]) or 1, total, max(1, total // 2), max(1, total // 3 + 1),
                     max(1, total // 5)])
    if rng.random() < 0.4 and sizes:
        # just what some of the files amount to
        mx = sum(rng.sample(sizes, min(len(sizes), rng.choice([2, 3, 4])))) or 1
    kw = {"maxsize": mx}
    if rng.random() < 0.4:
        kw["targetsize"] = rng.choice([max(1, mx // 2), max(1, mx * 3 // 4), 1])
    if rng.random() < 0.3:
        kw["forhead"] = rng.sample(sorted(s.files), min(len(s.files), 2))
    cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
    return cls, kw


def case(ctx, i):
    rng = ctx.rng
    s = gen.random_spec(rng, nfiles=rng.choice([1, 3, 6, 10, 20]), hostile=rng.choice([0, 0.5]))
    if rng.random() < 0.6:
        # many files of the same size: ties must not be decided by chance
        z = rng.choice([0, 1, 50, 100])
        for p in list(s.files):
            if rng.random() < 0.8:
                s.files[p] = s.files[p][:z].ljust(z, b"x")
        ctx.count("ties")
    if rng.random() < 0.4:
        # names that differ in case only, of the same size
        for p in rng.sample(sorted(s.files), min(3, len(s.files))):
            q = p[:p.rfind("/") + 1] + p[p.rfind("/") + 1:].swapcase()
            if q not in s.files and not any(f.startswith(q + "/") for f in s.files) and q not in s.empty and \
               not oracle.is_special(q) and not any(e == q or e.startswith(q + "/") for e in s.empty):
                s.files[q] = s.files[p][::-1]
                ctx.count("alike_names")
    if s.empty:
        ctx.count("empty_dirs")
    a, b = ctx.path("a"), ctx.path("b", "deeper"[:rng.randrange(1, 7)], "down")
    os.makedirs(a), os.makedirs(b)
    src = gen.write_bag(s, a, rng)
    before = oracle.snapshot(src)
    cls, kw = make_splitter(rng, s)
    what = "%s(%s)" % (cls.__name__, kw)
    ctx.note([s.describe(), what])
    base = rng.choice(["out", "o p", s.name])
    used = cls(**kw)
    ref = dist(used.plan(src, base))
    ctx.equal(sorted(p for m in ref for p in m[1]), sorted(list(s.files) + [e for e in s.empty]) if not s.empty
              else sorted(p for m in ref for p in m[1]), what + ": paths of the plan")
    if len(ref) > 1:
        ctx.count("several_bags")

    def same(plan, how):
        ctx.equal(dist(plan), ref, "%s: plan (%s)" % (what, how))
        ctx.count("plans_compared")

    same(used.plan(src, base), "once more")
    same(cls(**kw).plan(src, base), "new splitter")
    same(used.plan(src + "/", base), "path with a slash")
    cwd = os.getcwd()
    os.chdir(a)
    try:
        same(cls(**kw).plan(s.name, base), "relative path")
    finally:
        os.chdir(cwd)
    # a copy made in another order
    names = []
    with mon.quiet():
        shutil.rmtree(b)
        os.makedirs(b)
        bag2 = gen.write_bag(s, b, rng)
        os.utime(bag2, (5, 5))
    ctx.count("copies_in_other_order")
    same(cls(**kw).plan(bag2, base), "copy")
    same(used.plan(bag2, base), "copy, used splitter")
    if i % 5 == 0:
        ctx.equal(elsewhere(ctx, rng, cls, kw, rng.choice([src, bag2]), base), ref, what + ": plan made by another process")
    # used for another bag in between
    with mon.quiet():
        o = gen.random_spec(rng, nfiles=5, name="other bag")
        obag = gen.write_bag(o, ctx.path(), rng)
    od = dist(cls(**kw).plan(obag, "x"))
    ctx.equal(dist(used.plan(obag, "x")), od, what + ": plan of another bag with a used splitter")
    same(used.plan(src, base), "after another bag")
    ctx.count("reused_splitters")
    if rng.random() < 0.5:
        outs = []
        for k, (sp, source) in enumerate([(used, src), (cls(**kw), bag2)] + [(used, src)]):
            od = ctx.path("out%d" % k)
            os.mkdir(od)
            outs.append(made(sp.split(source, od, base)))
            if k:
                for x, y in zip(outs[0], outs[k]):
                    for j, part in enumerate(("name", "files", "directories", "manifests", "bag-info")):
                        if part == "files":
                            # (the order of lines in the tag files of the head bag is not claimed)
                            ctx.equal({p: norm(p, d) for p, d in y[1].items()},
                                      {p: norm(p, d) for p, d in x[1].items()}, "%s: files of %s" % (what, x[0]))
                        else:
                            ctx.equal(y[j], x[j], "%s: %s of %s" % (what, part, x[0]))
            ctx.equal(len(outs[k]), len(outs[0]), what + ": number of output bags")
            ctx.equal([(n, sorted(p for p in f if not (n == outs[k][-1][0] and p.startswith("multibag/"))))
                       for n, f, d, m, inf in outs[k]],
                      [(m[0], sorted(p for p in m[1] if p in s.files)) for m in ref],
                      what + ": output bags versus the plan")
            ctx.count("splits_compared")
    ctx.equal(oracle.snapshot(src), before, what + ": the source was changed")
    # other content in the same place, and at another place under the same name
    with mon.quiet():
        o = gen.random_spec(rng, nfiles=5, name=s.name)
        for p in list(o.files):
            if p in s.files and rng.random() < 0.5:
                o.files[p] = s.files[p]
        shutil.rmtree(src)
        for parent in (a, ctx.path("c")):
            gen.write_bag(o, parent, rng)
    for parent in (a, ctx.path("c")):
        obag = os.path.join(parent, s.name)
        ctx.equal(dist(used.plan(obag, "x")), dist(cls(**kw).plan(obag, "x")),
                  what + ": plan of changed content with a used splitter")
        ctx.count("changed_content")
    ctx.feature(cls.__name__, "targetsize" in kw, "forhead" in kw, len(ref), bool(s.empty))
    ctx.sample({"bag": s.describe(), "splitter": what, "bags": len(ref)})


def norm(p, d):
    return sorted(d.split(b"\n")) if p.startswith("multibag/") else d
