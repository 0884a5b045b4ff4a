"""
P21: the fetch list of a restored bag combines those of the members
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P21"
LEVEL = "exploration"
RULE = ("random histories of aggregations whose bags list files to fetch are restored in several ways and the "
        "fetch list and manifests compared with a reference merge; distinct by (number of lists, repeated paths, "
        "deleted entries, provided later, way of restoring)")
ASSUMPTIONS = ["a path to fetch is not at the same time a file of an earlier member"]
N = {"quick": 840, "thorough": 5000}
REQUIRED = ["collected_by_member", "restored", "fetch_entries", "repeated_paths", "deleted_entries", "no_list", "in_place",
            "to_be_fetched_in_manifest", "provided_later", "list_in_head", "only_restore_fetch"]

URLS = ["http://example.org/a%20b?x=1", "https://x.y/z#f", "ftp://h/p", "urn:a:b", "http://e.org/\u00e9"]


class FHist(hist.Hist):
    def __init__(self, *a, **kw):
        self.on = False
        self.fetched = {}           # path -> content
        super(FHist, self).__init__(*a, **kw)

    def known_files(self):
        k = super(FHist, self).known_files()
        if self.on and self.rng.random() < 0.4:
            k = sorted(set(k) | set(p for p in self.fetched
                                    if not any(p.startswith(d + "/") for d in self.gone_dirs)))
        return k

    def spec(self, *a, **kw):
        s = super(FHist, self).spec(*a, **kw)
        rng = self.rng
        if self.on and rng.random() < 0.7:
            present = set()
            for t in self.trees.values():
                present |= set(t.files)
            for k in range(rng.choice([1, 1, 2, 4])):
                again = [p for p in self.fetched if p not in present and p not in s.files
                         and not any(p.startswith(d + "/") for d in self.gone_dirs)]
                if again and rng.random() < 0.5:
                    p = rng.choice(sorted(again))
                else:
                    p = self.nm.payload()
                    self.nm.add_file(p)
                    if any(p.startswith(d + "/") for d in self.gone_dirs):
                        continue
                if rng.random() < 0.7 and p in self.fetched:
                    data = self.fetched[p]
                else:
                    data = gen.content(rng, gen.size(rng))
                self.fetched[p] = data
                s.fetch[p] = (rng.choice(URLS) + str(rng.randrange(100)),
                              rng.choice([str(len(data)), "-"]), data)
        return s


def case(ctx, i):
    rng = ctx.rng
    h = FHist(ctx, rng, nfiles=(0, 1, 2, 3))
    kind = rng.choice(["plain", "single", "single", "split"])
    h.on = kind != "split"
    h.first(kind)
    h.on = rng.random() < 0.93
    n = rng.choice([1, 1, 2, 3])
    if kind == "single" and rng.random() < 0.2:
        n = 0
    for k in range(n):
        h.amend()
    v = h.versions[-1]
    trees = h.member_trees(v)
    head = h.trees[v.head]
    want = oracle.combine_fetch(trees, head)
    lists = [t for t in trees if "fetch.txt" in t.files]
    allp = [p for t in lists for u, s, p in oracle.parse_fetch(t.files["fetch.txt"])]
    if len(set(allp)) < len(allp):
        ctx.count("repeated_paths")
    gone = set(allp) - set(want)
    if gone:
        ctx.count("deleted_entries")
    later = [p for p in want if any(p in t.files for t in trees)]
    if later:
        ctx.count("provided_later")
    if "fetch.txt" in head.files:
        ctx.count("list_in_head")
    ctx.note([v.names(), dict(want), sorted(gone)])

    way = rng.choice(["new", "new", "inplace", "fetchonly"])
    dest = ctx.path("restored")
    if way == "inplace":
        ctx.count("in_place")
        dest = os.path.join(ctx.path(), v.head)
        with mon.quiet():
            for d in sorted(head.dirs):
                os.makedirs(os.path.join(dest, d), exist_ok=True)
            for q, data in head.files.items():
                with open(os.path.join(dest, q), "wb") as fd:
                    fd.write(data)
        others = h.store
        if rng.random() < 0.5:
            others = ctx.path("others")
            with mon.quiet():
                os.mkdir(others)
                for m in v.names():
                    if m != v.head:
                        q = os.path.join(others, os.path.basename(h.paths[m]))
                        (shutil.copytree if os.path.isdir(h.paths[m]) else shutil.copy2)(h.paths[m], q)
            ctx.count("in_place_alone")
        BagRestorer(dest, compdir=others).restore()
    else:
        r = BagRestorer(h.paths[v.head], dest, h.store)
        if way == "fetchonly":
            ctx.count("only_restore_fetch")
            r.restore_fetch()
            if rng.random() < 0.5:
                r.restore_fetch(list(r.head_bag.member_bags()))
        else:
            r.restore()
        if way == "new" and rng.random() < 0.5:
            # entries can be collected member by member
            r = BagRestorer(h.paths[v.head], ctx.path("other dest"), h.store)
            coll = {}
            for m in reversed(v.names()):
                r.restore_member(m, sorted(v.deleted), coll)
            pairs = {}
            for p, line in coll.items():
                ctx.equal(line.strip().split(None, 2)[2], p, "path of a collected fetch entry")
                pairs[p] = tuple(line.strip().split(None, 2)[:2])
            full = {}
            for t in trees:
                if "fetch.txt" in t.files:
                    for u, s, p in oracle.parse_fetch(t.files["fetch.txt"]):
                        full[p] = (u, s)
            ctx.equal(pairs, full, "fetch entries collected member by member, last first")
            ctx.count("collected_by_member")
    got = oracle.read_tree(dest)
    ctx.count("restored")
    ctx.feature(way, len(lists), len(set(allp)), len(gone), len(later), n, kind)
    if not want:
        ctx.count("no_list")
        ctx.check("fetch.txt" not in got.files, "there is a fetch list without any need")
    else:
        ctx.check("fetch.txt" in got.files, "the fetch list is missing")
        ents = oracle.parse_fetch(got.files["fetch.txt"])
        ctx.count("fetch_entries", len(ents))
        ctx.equal(len(set(e[2] for e in ents)), len(ents), "a path is listed twice in fetch.txt")
        ctx.equal({e[2]: (e[0], e[1]) for e in ents}, dict(want), "fetch.txt of the restored bag")
    if way != "fetchonly":
        hist.compare(ctx, h, v, got, allow_fetch=True)
        pay, _ = oracle.manifests(got)
        for p in want:
            ctx.check(any(p in pay[a] for a in pay), "%r, yet to be fetched, is not in any manifest" % p)
            if p not in got.files:
                ctx.count("to_be_fetched_in_manifest")
        b = Bag(dest)
        ctx.equal(sorted(tuple(x) for x in b.fetch_entries()), sorted((u, s, p) for p, (u, s) in want.items()),
                  "fetch_entries() of the restored bag")
    if i < 4:
        ctx.sample({"members": v.names(), "lists": len(lists), "merged": list(want)[:5], "way": way})
