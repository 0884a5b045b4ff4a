"""
P04: the splitters keep the size limits and pack the bags as documented
"""
import os
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P04"
LEVEL = "exploration"
RULE = ("sources with sizes at and around the limits are split by both splitters; the sizes "
        "of what is in each output bag are judged against the documented limits; distinct by "
        "(splitter, relation of the target to the limit, number of bags, oversized files, "
        "reserved files, zero-sized files, directories)")
ASSUMPTIONS = ["the size of a bag means that of the source's files in it (as documented by the "
               "plan's totals); the BagIt and multibag tag files come on top"]
N = {"quick": 1600, "thorough": 8000}
REQUIRED = ["full_bags", "oversized", "forhead_reserved", "target_closed", "neighbourhoods"]


def case(ctx, i):
    rng = ctx.rng
    mx = rng.choice([1, 2, 10, 100, 100, 250, 1000, 1000])
    tgt = None
    if rng.random() < 0.4:
        tgt = rng.choice([max(1, mx // 2), max(1, mx - 1), mx, 1, max(1, mx * 2 // 3)])
    spec = gen.Spec()
    spec.name = "src"
    nm = gen.Namer(rng, rng.choice([0.0, 0.5]))
    n = rng.randrange(1, 26)
    mode = rng.choice(["mixed", "equal", "edges", "tiny", "big"])
    for k in range(n):
        if mode == "equal":
            sz = max(1, mx // rng.choice([2, 3]) if k else mx // 2)
        elif mode == "edges":
            sz = rng.choice([0, 1, mx, mx - 1, mx + 1, mx // 2, mx // 2 + 1, (tgt or mx)])
        elif mode == "tiny":
            sz = rng.choice([0, 0, 1, 1, 2])
        elif mode == "big":
            sz = rng.randrange(mx, mx * 3 + 1)
        else:
            sz = rng.randrange(0, mx + mx // 4 + 1)
        if rng.random() < 0.12:
            p = nm.tag() or nm.payload()
        else:
            p = nm.payload()
        nm.add_file(p)
        spec.files[p] = gen.content(rng, sz)
    spec.info = []
    if rng.random() < 0.3:
        spec.empty.append("data/an empty dir")
    src = gen.write_bag(spec, ctx.path(), rng)
    leftover = bool(oracle.read_tree(src).empty_dirs())
    forhead = []
    if rng.random() < 0.3:
        forhead = rng.sample(sorted(spec.files), min(len(spec.files), rng.choice([1, 2, 4])))
    arg = [("/" + p if rng.random() < 0.5 else p) for p in forhead]
    given = list(arg)
    cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
    kw = {"maxsize": mx}
    if tgt is not None:
        kw["targetsize"] = tgt
    if arg or rng.random() < 0.2:
        kw["forhead"] = arg
    ctx.note([cls.__name__, kw, {p: len(d) for p, d in spec.files.items()}])
    out = ctx.path("out")
    os.mkdir(out)
    paths = cls(**kw).split(src, out)
    ctx.equal(arg, given, "the caller's list of files for the head bag was changed")

    target = tgt or mx
    trees = [oracle.read_tree(p) for p in paths]
    sizes = [{p: len(d) for p, d in ops.content_files(t, exclude=["multibag"]).items()} for t in trees]
    judge(ctx, cls, sizes, mx, target, forhead, spec, leftover)
    over = any(len(d) > mx for d in spec.files.values())
    ctx.feature(cls.__name__, tgt is None, target < mx, min(len(paths), 8), over, bool(forhead),
                mode, bool(spec.empty))
    ctx.sample({"splitter": cls.__name__, "args": kw,
                "bags": [sorted(s.values(), reverse=True) for s in sizes]})


def judge(ctx, cls, sizes, mx, target, forhead, spec, leftover):
    if forhead:
        ctx.count("forhead_reserved")
        ctx.check(set(forhead) <= set(sizes[-1]),
                  "files reserved for the head bag are elsewhere: %r" %
                  sorted(set(forhead) - set(sizes[-1])))
        ctx.check(set(sizes[-1]) <= set(forhead),
                  "the head bag holds files other than the ones reserved for it")
        sizes = sizes[:-1]
    elif leftover:
        ctx.equal(sizes[-1], {}, "files along with left-over directories")
        sizes = sizes[:-1]
    for k, bag in enumerate(sizes):
        ctx.count("full_bags")
        total = sum(bag.values())
        ctx.check(bag, "an output bag without any files")
        if total > mx:
            ctx.count("oversized")
            ctx.check(len(bag) == 1, "a bag of %d bytes exceeds the limit of %d, and is not due "
                      "to one single file: %r" % (total, mx, bag))
            continue
        if total > target:
            ctx.count("target_closed")
            # just exceeded by one file
            ctx.check(total - max(bag.values()) <= target,
                      "a bag of %d bytes exceeds the target %d by more than one file: %r"
                      % (total, target, bag))
            continue
        # not closed by its size: nothing that was left for later would have fit
        later = [v for b in sizes[k + 1:] for v in b.values()]
        if later:
            ctx.check(total + min(later) > mx,
                      "a bag of %d bytes was closed although a file of %d bytes would have "
                      "fit (limit %d)" % (total, min(later), mx))
    if cls is NeighborlySplitter:
        # a directory is split over bags only where it does not fit
        for k, bag in enumerate(sizes):
            total = sum(bag.values())
            if total > target or total > mx:
                continue
            top = max(bag.values())
            # the directory the bag was started with
            cands = set(p.rsplit("/", 1)[0] if "/" in p else "" for p in bag if bag[p] == top)
            if len(cands) != 1:
                continue
            d = cands.pop()
            mine = sum(v for p, v in bag.items() if _dir(p) == d)
            for b in sizes[k + 1:]:
                for p, v in b.items():
                    if _dir(p) == d:
                        ctx.count("neighbourhoods")
                        ctx.check(mine + v > mx, "%r was separated from its neighbours in %r "
                                  "although it fits (%d + %d <= %d)" % (p, d, mine, v, mx))


def _dir(p):
    return p.rsplit("/", 1)[0] if "/" in p else ""
