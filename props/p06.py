"""
P06: restoring an amended aggregation follows the profile's rules for combining bags
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P06"
LEVEL = "exploration"
RULE = ("random histories (first version by conversion, splitting or a plain bag; up to 4 "
        "amendments with overlapping files, deletions of files and directories, returned files, "
        "directories replaced by a file, "
        "moved members, serialized members, other tag directories) are restored and compared "
        "with an independent combination of the members; distinct by (kinds of the steps, "
        "forms of the members, deletions, way of restoring)")
ASSUMPTIONS = ["a path that was a file does not become a directory",
               "nothing is put into a directory after it was deleted as such"]
N = {"quick": 1000, "thorough": 5000}
REQUIRED = ["files_compared", "amendments", "versions_with_deletions", "deleted_directories",
            "dirs_to_files", "returned_files", "readded_members", "serialized_members", "in_place"]


def case(ctx, i):
    rng = ctx.rng
    h = hist.build(ctx)
    v = h.versions[-1]
    head = h.paths[v.head]
    dest = ctx.path("dest dir")
    way = rng.choice(["func", "class", "obj", "pieces", "inplace", "fetcher"])
    if way == "inplace" and not os.path.isdir(head):
        way = "func"
    if way == "func":
        bag = restore_bag(head, dest, rng.choice([None, h.store]))
        ctx.check(bag.path == dest and bool(bag.is_valid()), "the restored bag is not valid")
    elif way == "class":
        BagRestorer(head, dest, h.store).restore()
    elif way == "obj":
        BagRestorer(open_headbag(head, rng.random() < 0.5), dest).restore()
    elif way == "inplace":
        # (in a copy of the head bag that has the same name)
        os.mkdir(dest)
        dest = os.path.join(dest, v.head)
        shutil.copytree(head, dest)
        if rng.random() < 0.5:
            restore_bag(dest, None, h.store)
        else:
            BagRestorer(HeadBag(dest), compdir=h.store).restore()
        ctx.count("in_place")
    elif way == "fetcher":
        def fetcher(name, to):
            p = os.path.join(to, os.path.basename(h.paths[name]))
            (shutil.copytree if os.path.isdir(h.paths[name]) else shutil.copy)(h.paths[name], p)
            return p
        cache = None
        if rng.random() < 0.5:
            cache = ctx.path("cache")
            os.mkdir(cache)
        BagRestorer(head, dest, cache, fetcher).restore()
    else:
        r = BagRestorer(head, dest)
        ctx.equal(os.path.abspath(r.destination_bagdir), dest, "destination_bagdir")
        ctx.equal(r.head_bag.name, v.head, "head_bag")
        for n in v.names():
            ctx.equal(r.find_member_bag(n), h.paths[n], "find_member_bag(%r)" % n)
            ctx.equal(r.get_member_bag(n), h.paths[n], "get_member_bag(%r)" % n)
        ctx.check(r.find_member_bag("no such bag") is None, "found a bag that is not there")
        r.restore()
    hist.compare(ctx, h, v, oracle.read_tree(dest))
    ctx.feature(",".join(h.kinds), way, len(v.deleted) and 1,
                ",".join(sorted(set(os.path.splitext(p)[1] for p in h.paths.values()
                                    if os.path.isfile(p)))))
    ctx.sample({"steps": h.kinds, "members": [os.path.basename(h.paths[n]) for n in v.names()],
                "deleted": sorted(v.deleted), "way": way})
