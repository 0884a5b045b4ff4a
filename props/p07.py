"""
P07: every version of an aggregation stays restorable, unchanged, after later amendments
"""
import os
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P07"
LEVEL = "exploration"
RULE = ("histories of 2 to 5 versions; every stored bag is compared with how it was stored and "
        "every version is restored from its own head bag at the end and compared with an "
        "independent combination of its members; distinct by (kinds of steps, which version)")
ASSUMPTIONS = ["the first version can be restored by itself when it has a head bag"]
N = {"quick": 450, "thorough": 2500}
REQUIRED = ["files_compared", "old_versions_restored", "stored_bags_rechecked"]


def case(ctx, i):
    rng = ctx.rng
    h = hist.Hist(ctx, rng)
    h.first()
    snaps = {}
    nver = rng.choice([1, 2, 3, 3])
    early = {}
    for k in range(nver + 1):
        if k:
            h.amend()
        for n, p in h.paths.items():
            if n not in snaps:
                snaps[n] = oracle.snapshot(p)
        v = h.versions[-1]
        if v.version and rng.random() < 0.4:
            d = ctx.path("early%d" % k)
            restore_bag(h.paths[v.head], d)
            early[k] = oracle.read_tree(d)
    for n, p in h.paths.items():
        ctx.count("stored_bags_rechecked")
        ctx.equal(oracle.snapshot(p), snaps[n], "a stored bag, %r, was changed" % n)
    for k, v in enumerate(h.versions):
        if not v.version:
            continue
        dest = ctx.path("v%d" % k)
        restore_bag(h.paths[v.head], dest)
        got = oracle.read_tree(dest)
        hist.compare(ctx, h, v, got, "version %d of %d" % (k + 1, len(h.versions)))
        if k in early:
            a, b = ops.content_files(early[k]), ops.content_files(got)
            ctx.check(a == b, "version %d was restored differently after it was amended" % (k + 1))
            ctx.equal(oracle.manifests(got)[0], oracle.manifests(early[k])[0],
                      "manifests of version %d" % (k + 1))
            ctx.equal(oracle.info_of(got), oracle.info_of(early[k]),
                      "bag-info.txt of version %d" % (k + 1))
        if k < len(h.versions) - 1:
            ctx.count("old_versions_restored")
            ctx.feature(",".join(h.kinds), k)
    ctx.sample({"steps": h.kinds, "heads": [v.head for v in h.versions]})
