"""
P09: the file lookup of a head bag points to the bag that supplies the file
"""
import os
from props import p08
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P09"
LEVEL = "exploration"
RULE = ("for every version of a random history, every payload path of the aggregation is looked "
        "up (in the file, through the read-only and the updatable views, serialized or not) and "
        "compared with the last member that has it; distinct by (kinds of steps, version)")
ASSUMPTIONS = ["only payload files are listed by default when amending",
               "entries for deleted files may remain"]
N = {"quick": 900, "thorough": 5000}
REQUIRED = ["lookups", "superseded_lookups", "split_tag_lookups", "reverse_lookups", "lookup_requests"]


def case(ctx, i):
    rng = ctx.rng
    h = hist.build(ctx, rng.choice([0, 1, 2, 3]))
    for k, v in enumerate(h.versions):
        if v.version:
            judge(ctx, h, v)
            ctx.feature(",".join(h.kinds[:k + 1]), rng.random() < 0.5)
    if rng.random() < 0.4:
        p08.requests(ctx, h)
    ctx.sample({"steps": h.kinds, "lookup": dict(list(oracle.lookup_of(
        h.trees[h.versions[-1].head]).items())[:8]) if h.versions[-1].version else None})


def judge(ctx, h, v):
    rng = ctx.rng
    trees = h.member_trees(v)
    where, count = {}, {}
    for t in trees:
        for p in t.files:
            if p.startswith("data/"):
                where[p] = t.name
                count[p] = count.get(p, 0) + 1
    table = oracle.lookup_of(h.trees[v.head])
    ctx.check(set(table.values()) <= set(v.names()), "the lookup names a bag that is not a member")
    views = [open_headbag(h.paths[v.head], True)]
    if os.path.isdir(h.paths[v.head]):
        views += [HeadBag(h.paths[v.head]), open_headbag(h.paths[v.head])]
    for p, name in where.items():
        if p in v.deleted or oracle.skipped(p, v.deleted):
            continue
        ctx.count("lookups")
        if count[p] > 1:
            ctx.count("superseded_lookups")
        ctx.check(table.get(p) == name, "the lookup says that %r is in %r; the last member that "
                  "has it is %r" % (p, table.get(p), name))
        for b in views:
            ctx.equal(b.lookup_file(p), name, "lookup_file(%r)" % p)
    for p, name in table.items():
        if p in where:
            continue
        ctx.count("split_tag_lookups")
        # other files (tag files) must at least be there
        t = h.trees[name]
        ctx.check(p in t.files, "the lookup says that %r is in %r, which does not have it" % (p, name))
    for b in views:
        ctx.check(b.lookup_file("data/there is no such file") is None, "found a non-existing file")
        for n in v.names():
            ctx.count("reverse_lookups")
            ctx.equal(sorted(b.files_in_member(n)), sorted(p for p in table if table[p] == n),
                      "files_in_member(%r)" % n)
        ctx.equal(b.files_in_member("no such bag"), [], "files_in_member() of a non-member")
        ctx.equal(dict(b.iter_file_lookup()), dict(table), "iter_file_lookup()")
