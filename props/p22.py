"""
P22: test data sets have exactly the requested sizes and counts
"""
import os, copy, random, signal
from vlib import mon, oracle
from multibag.testing.mkdata import (create_file, mkdataset, DatasetMaker, UniformSizeIterator,
                                     InventorySizeIterator)

ID = "P22"
LEVEL = "exploration"
RULE = ("files, size distributions and data sets are made for random and boundary sizes and counts and measured; "
        "distinct by (what is made, magnitude of size and count, remainder, shape of the plan)")
ASSUMPTIONS = ["totals below 2**50"]
N = {"quick": 1250, "thorough": 6000}
REQUIRED = ["files_created", "uniform_iterators", "inventory_iterators", "plain_datasets", "planned_datasets",
            "uneven", "nested", "many_of_a_size", "inventories", "overwritten"]


def measure(root):
    nb = nf = 0
    sizes = []
    for d, sub, files in os.walk(root):
        for f in files:
            s = os.stat(os.path.join(d, f)).st_size
            sizes.append(s)
            nb += s
            nf += 1
    return nb, nf, sorted(sizes)


def isize(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, 2, 3, 4, 98, 99, 100, 101, 102, 103, 104, 199, 200, 201, 1000, 1001])
    if r < 0.6:
        return rng.randrange(0, 1200)
    if r < 0.9:
        return rng.randrange(0, 60000)
    return rng.choice([99999, 100000, 100001, 100002, 100003, 271900, 738900, 1000000, 1000001, 1048576])


def files(ctx, rng):
    for k in range(12):
        n = isize(rng)
        p = ctx.path("f%d" % k)
        if rng.random() < 0.2:
            with mon.quiet():
                with open(p, "wb") as fd:
                    fd.write(b"z" * rng.choice([1, 5000]))
            ctx.count("overwritten")
        r = create_file(p, n)
        ctx.equal(os.stat(p).st_size, n, "size of the file created for %d bytes" % n)
        ctx.equal(r, n, "size reported for a file of %d bytes" % n)
        with open(p, "rb") as fd:
            data = fd.read()
        try:
            data.decode("ascii")
        except UnicodeDecodeError:
            ctx.fail("a file of %d bytes is not ASCII text" % n)
        ctx.check(all(len(l) <= 100 for l in data.split(b"\n")), "a line of more than 100 bytes")
        ctx.count("files_created")
        ctx.feature("file", len(str(n)), n % 100 if n % 100 < 6 else ">", (n // 100).bit_length())


def iters(ctx, rng):
    for k in range(60):
        tz = rng.choice([0, 1, isize(rng), rng.randrange(10 ** 9), rng.randrange(2 ** 50)])
        nf = rng.choice([1, 2, 3, 7, 10, rng.randrange(1, 300)])
        it = UniformSizeIterator(tz, nf)
        if rng.random() < 0.3:
            it = UniformSizeIterator()
            it.target_totalsize = tz
            it.target_totalfiles = nf
        what = "uniform sizes for %d bytes in %d files" % (tz, nf)
        for rep in range(2):
            got = list(it.iterate())
            ctx.equal(len(got), nf, what + ": number")
            ctx.equal(sum(got), tz, what + ": total")
            ctx.check(max(got) - min(got) <= 1, what + ": not uniform")
            ctx.check(min(got) >= 0, what + ": negative size")
        ctx.equal((it.totalsize, it.totalfiles), (tz, nf), what + ": reported totals")
        ctx.count("uniform_iterators")
        if tz % nf:
            ctx.count("uneven")
        ctx.feature("uniform", tz.bit_length(), nf.bit_length(), 2 * (tz % nf) // nf, 2 * (tz % nf) == nf)
        inv = {isize(rng): rng.randrange(0, 6) for j in range(rng.randrange(0, 4))}
        it = InventorySizeIterator(dict(inv))
        want = sorted(s for s in inv for j in range(inv[s]))
        for rep in range(2):
            ctx.equal(sorted(it.iterate()), want, "sizes of inventory %r" % inv)
        ctx.equal((it.totalsize, it.totalfiles), (sum(want), len(want)), "totals of inventory %r" % inv)
        ctx.count("inventory_iterators")


def plain(ctx, rng):
    tz = rng.choice([1, 5, 100, 999, 5000, 20000, rng.randrange(1, 40000)])
    nf = rng.choice([1, 2, 3, 10, rng.randrange(1, 60)])
    root = ctx.path("set")
    random.seed(rng.random())
    mkdataset(root, tz, nf)
    nb, n, sizes = measure(root)
    what = "data set of %d bytes in %d files" % (tz, nf)
    ctx.equal((nb, n), (tz, nf), what)
    ctx.check(sizes[-1] - sizes[0] <= 1, what + ": the sizes are not uniform")
    ctx.count("plain_datasets")
    ctx.feature("plain", tz.bit_length(), nf.bit_length(), bool(tz % nf))
    if nf > 1 and tz // nf:
        ctx.count("many_of_a_size")


def shape(rng, depth):
    "a plan without totals, and the number of places that need files"
    out, n = {}, 0
    nf = rng.choice([0, 1, 1, 2])
    if nf:
        out["files"] = [{"type": "uniform"} if rng.random() < 0.5 else {} for k in range(nf)]
        n += nf
    if depth < 3 and rng.random() < 0.7:
        nd = rng.choice([1, 2, 3])
        if rng.random() < 0.3:
            out["dirs"] = nd
            n += nd
        else:
            out["dirs"] = []
            m = 0
            for k in range(nd):
                s, c = shape(rng, depth + 1)
                out["dirs"].append(s)
                m = max(m, c)
            n += nd * m
    if not n:
        n = 1
    return out, n


def planned(ctx, rng):
    root = ctx.path("set")
    random.seed(rng.random())
    kind = rng.choice(["shape", "inventory", "inventory only", "any"])
    if kind == "shape":
        plan, need = shape(rng, 0)
        # (enough for each place that is to have some)
        nf = need * 4 * rng.choice([1, 2])
        tz = nf * rng.choice([50, 100, 150]) + rng.randrange(7)
        if nf > 400:
            return
        plan.update(totalsize=tz, totalfiles=nf)
    elif kind == "inventory":
        inv = {s: rng.randrange(1, 30) for s in rng.sample([0, 1, 10, 100, 101, 500, 2000], rng.choice([1, 2]))}
        ib, n = sum(s * c for s, c in inv.items()), sum(inv.values())
        nf = n + rng.randrange(1, 20)
        tz = ib + rng.randrange(1, 3000)
        plan = {"totalsize": tz, "totalfiles": nf, "files": [{"type": "inventory", "sizes": inv}]}
        ctx.count("inventories")
    elif kind == "inventory only":
        # (more files than 'totalfiles' leads to expect: their names must still differ.  More than 10 times as many
        #  of one size is the known finding of endless())
        inv = {rng.choice([10, 100, 101]): rng.choice([1, 30, 60, 80])}
        ib, n = sum(s * c for s, c in inv.items()), sum(inv.values())
        plan = {"totalsize": ib, "files": [{"type": "inventory", "sizes": inv}]}
        if rng.random() < 0.3:
            plan["totalfiles"] = n
        tz, nf = ib, n
        ctx.count("inventories")
    else:
        plan = {"totalsize": rng.randrange(0, 20000), "totalfiles": rng.randrange(0, 50),
                "files": [rng.choice([{"type": "uniform", "totalsize": rng.randrange(2000), "totalfiles":
                                       rng.randrange(1, 9)},
                                      {"type": "inventory", "sizes": {rng.choice([1, 100, 333]): rng.randrange(5)}}])
                          for k in range(rng.choice([0, 1, 2, 3]))],
                "dirs": [{"totalsize": rng.randrange(3000), "totalfiles": rng.randrange(1, 9)}
                         for k in range(rng.choice([0, 1, 2]))]}
        tz = nf = None
        # (this many fit)
        plan["totalsize"] += sum(f.get("totalsize", 0) for f in plan["files"] + plan["dirs"]) + \
            sum(s * c for f in plan["files"] for s, c in f.get("sizes", {}).items())
        plan["totalfiles"] += sum(f.get("totalfiles", 0) for f in plan["files"] + plan["dirs"]) + \
            sum(c for f in plan["files"] for c in f.get("sizes", {}).values())
    ctx.note(plan)
    before = copy.deepcopy(plan)
    dm = DatasetMaker(root, plan)
    rep = dm.fill()
    ctx.equal(plan, before, "the plan that was passed was changed")
    nb, n, sizes = measure(root) if os.path.exists(root) else (0, 0, [])
    ctx.equal(tuple(rep), (nb, n), "reported (bytes, files) of plan %r, versus found" % before)
    if tz is not None:
        ctx.equal((nb, n), (tz, nf), "(bytes, files) of plan %r" % before)
    if kind.startswith("inventory"):
        for s, c in inv.items():
            ctx.check(sizes.count(s) >= c, "plan %r: %d files of %d bytes" % (before, sizes.count(s), s))
    if isinstance(plan.get("dirs"), list) and any("dirs" in d for d in plan["dirs"]):
        ctx.count("nested")
    ctx.count("planned_datasets")
    ctx.feature(kind, len(plan.get("files", [])), repr(plan.get("dirs"))[:40], n.bit_length())


class Endless(Exception):
    pass


def endless(ctx):
    """
    101 files of one size where 'totalfiles' is left to its default of 10.  CPU time is limited, as the code is
    known not to come to an end
    """
    plan = {"totalsize": 1010, "files": [{"type": "inventory", "sizes": {10: 101}}]}
    root = ctx.path("endless")
    random.seed(1)

    def ring(signum, frame):
        raise Endless()
    old = signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, 4)
    try:
        rep = DatasetMaker(root, plan).fill()
        signal.setitimer(signal.ITIMER_PROF, 0)
    except Endless:
        ctx.known("more-than-10x-totalfiles-of-a-size-never-ends",
                  "DatasetMaker never ends for plan %r" % plan)
        return
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    ctx.equal(tuple(rep), (1010, 101), "reported (bytes, files) of plan %r" % plan)
    ctx.equal(measure(root)[:2], (1010, 101), "(bytes, files) of plan %r" % plan)


KINDS = [files, iters, plain, planned, planned]


def case(ctx, i):
    f = KINDS[i % len(KINDS)]
    f(ctx, ctx.rng)
    if i == 0:
        endless(ctx)
    if i < 5:
        ctx.sample({"kind": f.__name__, "plan": ctx.note_[:1]})
