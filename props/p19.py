"""
P19: missing members are never ignored and fetching changes nothing
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P19"
LEVEL = "exploration"
RULE = ("an aggregation is restored with some of its members not available locally, with fetchers that copy, "
        "serialize, place elsewhere, fail or return nothing; distinct by (fetcher, cache, missing members, "
        "form of the head, outcome)")
ASSUMPTIONS = ["a fetcher that puts bags into the cache names them after the member"]
N = {"quick": 1000, "thorough": 6000}
REQUIRED = ["similar_names", "restored_with_fetcher", "fetched", "nothing_missing", "missing_without_fetcher", "fetcher_fails",
            "fetcher_returns_nothing", "default_cache", "own_cache", "fetched_archive", "placed_elsewhere",
            "in_place", "find_none", "fetch_lists_alone", "single_calls", "stray_files"]


class Fetcher(object):
    def __init__(self, ctx, rng, h, remote, mode, bad=()):
        self.ctx, self.rng, self.h = ctx, rng, h
        self.remote = remote          # name -> path
        self.mode = mode
        self.bad = set(bad)
        self.calls = []
        self.elsewhere = ctx.path("elsewhere")

    def __call__(self, name, cache):
        self.calls.append((name, cache))
        if name in self.bad:
            if self.mode == "fails":
                raise IOError("no connection for " + name)
            return None
        src = self.remote.get(name)
        if src is None:
            return None
        with mon.quiet():
            dest = cache
            if self.mode == "elsewhere":
                dest = self.elsewhere
                if not os.path.exists(dest):
                    os.mkdir(dest)
                out = os.path.join(dest, os.path.basename(src))
                if os.path.exists(out):
                    return out
            if not os.path.isdir(dest):
                raise RuntimeError("the cache directory does not exist: " + dest)
            out = os.path.join(dest, os.path.basename(src))
            if os.path.isdir(src):
                if self.mode == "serialize":
                    out = gen.serialize(src, os.path.join(dest, name), self.rng.choice(gen.FORMS), "all",
                                        self.rng)
                else:
                    shutil.copytree(src, out)
            else:
                shutil.copy2(src, out)
            if os.path.isfile(out):
                self.ctx.count("fetched_archive")
        self.ctx.count("fetched")
        return out


def unpack_head(ctx, h, v, parent):
    "the head bag as a directory in its own right"
    p = h.paths[v.head]
    dest = os.path.join(parent, v.head)
    with mon.quiet():
        if os.path.isdir(p):
            shutil.copytree(p, dest)
        else:
            t = h.trees[v.head]
            for d in sorted(t.dirs):
                os.makedirs(os.path.join(dest, d), exist_ok=True)
            for q, data in t.files.items():
                with open(os.path.join(dest, q), "wb") as fd:
                    fd.write(data)
    return dest


def case(ctx, i):
    rng = ctx.rng
    h = hist.build(ctx, rng.choice([0, 1, 1, 2, 3]), nfiles=(0, 1, 2))
    cands = [v for v in h.versions if v.version]
    if not cands:
        h.amend()
        cands = h.versions[-1:]
    v = rng.choice(cands[-2:])
    names = v.names()
    others = [n for n in names if n != v.head]

    # the reference: everything at hand
    ref = ctx.path("reference")
    BagRestorer(h.paths[v.head], ref, h.store).restore()
    want = oracle.read_tree(ref)
    hist.compare(ctx, h, v, want)

    cache = rng.choice(["default", "own", "own"])
    if cache == "own" or not others:
        missing = [n for n in others if rng.random() < rng.choice([0.2, 0.5, 1])]
    else:
        missing = list(others)
    remote, local = {}, ctx.path("local")
    os.mkdir(local)
    os.mkdir(ctx.path("remote"))
    headin = rng.choice(["local", "apart"])
    with mon.quiet():
        for n in others:
            src = h.paths[n]
            d = ctx.path("remote") if n in missing else local
            dest = os.path.join(d, os.path.basename(src))
            (shutil.copytree if os.path.isdir(src) else shutil.copy2)(src, dest)
            if n in missing:
                remote[n] = dest
        # nor is a file that is not an archive
        for n in others:
            q = os.path.join(local, n)
            if n not in missing and not os.path.exists(q) and rng.random() < 0.4:
                with open(q, "w") as fd:
                    fd.write("just notes\n")
                ctx.count("stray_files")
        # bags with similar names are not taken for the missing ones
        for n in missing:
            if rng.random() < 0.4:
                o = rng.choice(others)
                alias = rng.choice([n + ".b", n + "1", n + ".mbag", n.swapcase(), n[:-1] or "x", "x" + n])
                if os.path.exists(os.path.join(local, alias)) or alias != alias.strip() or any(alias + e == x + g for x in h.names for e in hist.EXTS
                                                 for g in hist.EXTS):
                    continue
                gen.write_bag(gen.random_spec(rng, nfiles=1, name=alias), local, rng)
                d = os.path.join(local, alias)
                if rng.random() < 0.6:
                    gen.serialize(d, d, rng.choice(gen.FORMS), "all", rng)
                    shutil.rmtree(d)
                ctx.count("similar_names")
    inplace = rng.random() < 0.25
    os.mkdir(ctx.path("headdir"))
    where = local if headin == "local" else ctx.path("headdir")
    if inplace:
        head = unpack_head(ctx, h, v, where)
    else:
        with mon.quiet():
            src = h.paths[v.head]
            head = os.path.join(where, os.path.basename(src))
            (shutil.copytree if os.path.isdir(src) else shutil.copy2)(src, head)
    dest = head if inplace else ctx.path("restored")
    kw = {}
    if not inplace:
        kw["destbag"] = dest
        mon.protect(head)
    if cache == "own":
        kw["compdir"] = local
        ctx.count("own_cache")
    keep = [os.path.join(local, os.path.basename(h.paths[n])) for n in others if n not in missing]
    mon.protect(*(list(remote.values()) + keep))
    snaps = {p: oracle.snapshot(p) for p in keep}

    mode = rng.choice(["none", "copy", "copy", "serialize", "elsewhere", "fails", "nothing"])
    bad = []
    if mode in ("fails", "nothing"):
        bad = rng.sample(missing, min(len(missing), rng.choice([1, 1, 2])))
    f = None
    if mode != "none":
        f = Fetcher(ctx, rng, h, remote, mode, bad)
        kw["fetcher"] = f
    elif cache == "default":
        kw["compdir"] = local
    if cache == "default" and f is not None:
        ctx.count("default_cache")
    ctx.note([names, missing, bad, mode, cache, headin, inplace])
    must_fail = bool(missing) and (f is None or bool(bad))

    single = rng.random() < 0.15 and others
    if single:
        one(ctx, rng, head, kw, f, others, missing, bad, mode)
        return
    r = BagRestorer(head, **kw)
    try:
        if rng.random() < 0.3:
            restore_bag(head, kw.get("destbag"), kw.get("compdir"), kw.get("fetcher"))
        else:
            r.restore()
        failed = None
    except mon.Escape:
        raise
    except Exception as ex:
        failed = ex
    ctx.feature(mode, cache, headin, inplace, len(missing), len(others), bool(failed),
                os.path.isfile(head))
    if must_fail:
        ctx.count({"none": "missing_without_fetcher", "fails": "fetcher_fails",
                   "nothing": "fetcher_returns_nothing"}[mode])
        ctx.check(failed is not None, "a member bag that is not available (%s) was ignored" %
                  (bad or missing))
    else:
        if failed is not None:
            raise failed
        got = oracle.read_tree(dest)
        ctx.equal(ops.content_files(got), ops.content_files(want), "restored with fetched members: files")
        ctx.equal(got.dirs, want.dirs, "restored with fetched members: directories")
        ctx.check(not any("_membercache" in d.split("/")[1:2] and d.startswith("multibag/") for d in got.dirs),
                  "cached bags were left in the restored bag")
        hist.compare(ctx, h, v, got)
        ia, ib = oracle.info_of(got), oracle.info_of(want)
        ia.pop("Bag-Size", None)
        ib.pop("Bag-Size", None)
        ctx.equal(dict(ia), dict(ib), "restored with fetched members: bag-info")
        if f is not None:
            ctx.count("restored_with_fetcher")
        if not missing:
            ctx.count("nothing_missing")
        if mode == "elsewhere" and missing:
            ctx.count("placed_elsewhere")
        if inplace:
            ctx.count("in_place")
    if f is not None:
        asked = [n for n, c in f.calls]
        ctx.check(set(asked) <= set(missing), "the fetcher was asked for %r, which %s" %
                  (sorted(set(asked) - set(missing)), "is available"))
        if not must_fail:
            ctx.equal(set(asked), set(missing), "members that were fetched")
            if mode != "elsewhere":
                ctx.equal(sorted(asked), sorted(missing), "members were fetched more than once")
        if cache == "own":
            ctx.equal(set(c for n, c in f.calls) - set([local]), set(), "cache directory given to the fetcher")
        else:
            for n, c in f.calls:
                ctx.check(os.path.abspath(c).startswith(os.path.abspath(dest) + "/"),
                          "cache directory given to the fetcher: %r" % c)
    for p, s in snaps.items():
        ctx.equal(oracle.snapshot(p), s, "a member bag was changed")
    ctx.check(not mon.hits(), "a member bag was changed: %s" % (mon.hits()[:2],))
    if i < 10:
        ctx.sample({"members": names, "missing": missing, "fetcher": mode, "cache": cache,
                    "calls": (f.calls if f else None) and [n for n, c in f.calls], "failed": repr(failed)})


def one(ctx, rng, head, kw, f, others, missing, bad, mode):
    "the operations on single members"
    r = BagRestorer(head, **kw)
    if not os.path.isdir(r.destination_bagdir):
        # (so that the manifests of the destination can be read)
        with mon.quiet():
            os.makedirs(os.path.join(r.destination_bagdir, "data"))
            for fn, text in (("bagit.txt", "BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n"),
                             ("manifest-md5.txt", "")):
                with open(os.path.join(r.destination_bagdir, fn), "w") as fd:
                    fd.write(text)
    own = r.cache_dir == kw.get("compdir")
    for n in others:
        found = r.find_member_bag(n)
        there = own and n not in missing
        ctx.check((found is not None) == there, "find_member_bag(%r) gave %r" % (n, found))
        if found:
            ctx.equal(os.path.dirname(found), r.cache_dir, "find_member_bag(%r)" % n)
        else:
            ctx.count("find_none")
        avail = there or (f is not None and n in missing and n not in bad)
        try:
            r.restore_member(n)
            ok = True
        except mon.Escape:
            raise
        except Exception:
            ok = False
        ctx.equal(ok, avail, "restore_member(%r) with fetcher %s" % (n, mode))
        ctx.count("single_calls")
    gone = [n for n in others if not r.find_member_bag(n) and (f is None or n not in missing or n in bad)]
    if own or f is None or mode in ("fails", "nothing"):
        try:
            r.restore_fetch()
            ok = True
        except mon.Escape:
            raise
        except Exception:
            ok = False
        ctx.equal(ok, not gone, "restore_fetch() with members that cannot be had: %s" % gone)
        ctx.count("fetch_lists_alone")
    ctx.check(r.find_member_bag("no such bag") is None, "find_member_bag() of an unknown bag")
