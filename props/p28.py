"""
P28: restoring in place, over existing content or with options gives the same bag as restoring elsewhere
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P28"
LEVEL = "exploration"
RULE = ("random histories are restored to a new directory, in place, to an empty directory, over a partly restored "
        "bag, through a fetcher and with the options for sizes and multibag tags, and the results are compared; "
        "distinct by (steps of the history, way, options, what was there before)")
ASSUMPTIONS = ["a partly restored bag still has its manifests, its bag-info and its bagit.txt",
               "a path is either a file or a directory throughout an aggregation"]
N = {"quick": 600, "thorough": 3000}
REQUIRED = ["in_place", "prefilled", "existing_empty", "with_fetcher", "options", "missing_files_completed",
            "kept_tag_files", "options_in_place", "by_pieces", "overwritten", "with_agginfo", "without_agginfo"]

MB = ("Multibag-Version", "Multibag-Head-Version", "Multibag-Tag-Directory", "Multibag-Head-Deprecates",
      "Multibag-Reference")
SIZES = ("Payload-Oxum", "Bag-Size")


def parse_info(text):
    t = oracle.Tree()
    t.files["bag-info.txt"] = text
    return oracle.info_of(t)


def strip(info, *groups):
    return {k: [oracle.squash(x) for x in v] for k, v in info.items() if not any(k in g for g in groups)}


def case(ctx, i):
    rng = ctx.rng
    h = hist.build(ctx, become=0, nver=rng.choice([0, 1, 1, 2, 3]))
    v = h.versions[-1]
    if v.version is None:
        h.amend()
        v = h.versions[-1]
    head = h.paths[v.head]
    ref = ctx.path("reference")
    BagRestorer(head, ref, h.store).restore()
    want = oracle.read_tree(ref)
    hist.compare(ctx, h, v, want)
    htree = h.trees[v.head]
    tagdir = oracle.tagdir_of(htree)
    agg = htree.files.get(tagdir + "/aggregation-info.txt")
    ctx.count("with_agginfo" if agg is not None else "without_agginfo")
    base = parse_info(agg if agg is not None else htree.files.get("bag-info.txt", b""))
    ctx.equal(strip(oracle.info_of(want), SIZES), strip(base, SIZES, MB), "bag-info of the restored bag")

    for way in rng.sample(["inplace", "prefilled", "empty", "fetcher", "options", "pieces", "overwrite"], 3) + ["prefilled"]:
        what = "restored (%s)" % way
        dest = ctx.path("dest " + way)
        if os.path.exists(dest):
            continue
        store = h.store
        if way == "inplace":
            if not os.path.isdir(head):
                continue
            store = ctx.path("store copy")
            with mon.quiet():
                shutil.copytree(h.store, store, symlinks=True)
            hp = os.path.join(store, os.path.basename(head))
            how = rng.choice(["path", "obj", "same", "func", "bagdest", "rel"])
            what += " " + how
            if how == "path":
                BagRestorer(hp).restore()
            elif how == "obj":
                BagRestorer(HeadBag(hp), None, store).restore()
            elif how == "same":
                BagRestorer(hp, hp).restore()
            elif how == "bagdest":
                BagRestorer(hp, Bag(hp)).restore()
            elif how == "rel":
                cwd = os.getcwd()
                os.chdir(store)
                try:
                    BagRestorer(os.path.basename(hp), hp).restore()
                finally:
                    os.chdir(cwd)
            else:
                restore_bag(hp)
            dest = hp
            ctx.count("in_place")
            same(ctx, want, oracle.read_tree(dest), what)
            ctx.feature("inplace", how, ",".join(h.kinds), bool(v.deleted))
            # and once more: there is nothing left to do, and it is not a head bag anymore
            ctx.check(not is_headbag(dest), what + ": still a head bag")
        elif way == "prefilled":
            with mon.quiet():
                shutil.copytree(ref, dest, symlinks=True)
                cands = [p for p in want.files if not oracle.is_special(p)]
                gone = rng.sample(sorted(cands), min(len(cands), rng.choice([0, 1, 1, 2, 5, 50])))
                for p in gone:
                    os.remove(os.path.join(dest, p))
                if rng.random() < 0.4:
                    # directories that are empty now
                    for d, sub, files in os.walk(dest, topdown=False):
                        if not os.listdir(d) and rng.random() < 0.7 and d != os.path.join(dest, "data"):
                            os.rmdir(d)
            d = Bag(dest) if rng.random() < 0.3 else dest
            BagRestorer(head, d, store).restore()
            ctx.count("prefilled")
            ctx.count("missing_files_completed", len(gone))
            same(ctx, want, oracle.read_tree(dest), what)
            ctx.feature("prefilled", len(gone), ",".join(h.kinds), bool(v.deleted))
        elif way == "empty":
            os.mkdir(dest)
            restore_bag(open_headbag(head, rng.random() < 0.5), dest)
            ctx.count("existing_empty")
            same(ctx, want, oracle.read_tree(dest), what)
            ctx.feature("empty", ",".join(h.kinds))
        elif way == "fetcher":
            asked = []

            def fetch(name, cache):
                asked.append(name)
                with mon.quiet():
                    if not os.path.isdir(cache):
                        os.makedirs(cache)
                    src = h.paths[name]
                    dst = os.path.join(cache, os.path.basename(src))
                    if os.path.isdir(src):
                        shutil.copytree(src, dst, symlinks=True)
                    else:
                        shutil.copy2(src, dst)
                return dst
            cache = rng.choice([None, ctx.path("cache")])
            alone = ctx.path("alone")
            os.mkdir(alone)
            with mon.quiet():
                hp = os.path.join(alone, os.path.basename(head))
                (shutil.copytree if os.path.isdir(head) else shutil.copy2)(head, hp)
            BagRestorer(hp, dest, cache, fetch).restore()
            ctx.count("with_fetcher")
            same(ctx, want, oracle.read_tree(dest), what)
            for n in v.names()[:-1]:
                ctx.equal(asked.count(n), 1, what + ": times %r was fetched" % n)
            ctx.feature("fetcher", bool(cache), ",".join(h.kinds))
        elif way == "pieces":
            # members by hand, in the documented order, then as a whole
            r = BagRestorer(head, dest, store)
            n = rng.randrange(1, len(v.names()) + 1)
            for m in list(reversed(v.names()))[:n]:
                r.restore_member(m, sorted(v.deleted))
            if rng.random() < 0.5:
                r.restore_fetch()
            BagRestorer(head, dest, store).restore()
            ctx.count("by_pieces")
            same(ctx, want, oracle.read_tree(dest), what + " %d members first" % n)
            ctx.feature("pieces", n, len(v.names()), ",".join(h.kinds))
        elif way == "overwrite":
            # oldest first, each replacing what came before
            r = BagRestorer(head, dest, store)
            upto = rng.choice([0, 0, 1])
            names = v.names()[:len(v.names()) - upto] or v.names()
            for m in names:
                if rng.random() < 0.5:
                    r.restore_member(m, sorted(v.deleted), overwrite=True)
                else:
                    r.restore_member(m, sorted(v.deleted), None, True)
            got = oracle.read_tree(dest)
            trees = [h.trees[m] for m in names]
            files, dirs = hist.model(trees, v.deleted, "\0")
            have = ops.content_files(got)
            ctx.equal(set(have), set(files), what + ": files")
            for p in files:
                ctx.check(have[p] == files[p][0], what + ": content of %r" % p)
            ctx.equal(got.dirs, dirs, what + ": directories")
            for f in ("bagit.txt", "bag-info.txt"):
                last = [t.files[f] for t in trees if f in t.files]
                ctx.equal(got.files.get(f), last[-1] if last else None, what + ": " + f)
            pay = oracle.manifests(got)[0]
            wpay = {}
            for t in trees:
                for alg, ents in oracle.manifests(t)[0].items():
                    for p in ents:
                        for a in wpay:
                            if p in t.files:
                                wpay[a].pop(p, None)
                    wpay.setdefault(alg, {})
                for alg, ents in oracle.manifests(t)[0].items():
                    wpay[alg].update({p: x for p, x in ents.items() if not oracle.skipped(p, v.deleted)})
            ctx.equal(pay, wpay, what + ": payload manifests")
            ctx.count("overwritten")
            ctx.feature("overwrite", upto, len(names), ",".join(h.kinds), bool(v.deleted))
        else:
            us, rm = rng.choice([(False, True), (True, False), (False, False)])
            what += " update_sizes=%s remove_multibag_tags=%s" % (us, rm)
            if os.path.isdir(head) and rng.random() < 0.5:
                # in place; the other members are elsewhere
                what += " in place"
                os.mkdir(dest)
                with mon.quiet():
                    dest = shutil.copytree(head, os.path.join(dest, os.path.basename(head)), symlinks=True)
                    if rng.random() < 0.5:
                        store = ctx.path("only the others")
                        os.mkdir(store)
                        for m in v.names():
                            if m != v.head:
                                q = os.path.join(store, os.path.basename(h.paths[m]))
                                (shutil.copytree if os.path.isdir(h.paths[m]) else shutil.copy2)(h.paths[m], q)
                if rng.random() < 0.6:
                    HeadBag(dest).save()        # (it has tag manifests now)
                r = BagRestorer(rng.choice([dest, HeadBag(dest)]), None, store)
                ctx.count("options_in_place")
            else:
                r = BagRestorer(head, dest, store)
            if rng.random() < 0.5:
                r.restore(us, rm)
            else:
                r.restore(update_sizes=us, remove_multibag_tags=rm)
            got = oracle.read_tree(dest)
            ctx.count("options")
            oxum_ok = us or rm is None
            if us:
                ops.check_clean_bag(ctx, got, what)
            else:
                probs = [p for p in oracle.bag_problems(got) if "xum" not in p]
                ctx.check(not probs, "%s is not a valid bag: %s" % (what, "; ".join(probs[:4])))
            files, dirs = hist.model(h.member_trees(v), v.deleted, tagdir if rm else "\0")
            have = ops.content_files(got)
            ctx.equal(set(have), set(files), what + ": files")
            for p in files:
                ctx.check(have[p] == files[p][0], what + ": content of %r" % p)
            ctx.equal(got.dirs, dirs, what + ": directories")
            if not rm:
                ctx.count("kept_tag_files", len([p for p in files if p.startswith(tagdir + "/")]))
                for p in htree.files:
                    if p.startswith(tagdir + "/"):
                        ctx.check(have.get(p) == htree.files[p], what + ": tag file %r is not the head bag's" % p)
            info = oracle.info_of(got)
            exp = dict(base)
            if rm:
                exp = strip(exp, MB)
            ctx.equal(strip(info, SIZES), strip(exp, SIZES), what + ": bag-info")
            for k in SIZES:
                if us:
                    ctx.check(k in info, what + ": no " + k)
                else:
                    ctx.equal(info.get(k), base.get(k), what + ": " + k)
            if us:
                ctx.equal(info["Payload-Oxum"], ["%d.%d" % oracle.payload_oxum(got)], what + ": Payload-Oxum")
            pay, tag = oracle.manifests(got)
            wpay, wtag = oracle.manifests(want)
            ctx.equal(pay, wpay, what + ": payload manifests")
            ctx.feature("options", us, rm, ",".join(h.kinds), agg is not None)
        # the members are as they were
        for n in v.names():
            t = oracle.read_any(h.paths[n])
            ctx.check(t.files == h.trees[n].files, what + ": member %r was changed" % n)
    ctx.sample({"steps": h.kinds})


def same(ctx, want, got, what):
    def names(t):
        # (before BagIt 0.97 tag manifests do not matter)
        return set(p for p in t.files if oracle.bagit_version(t) >= (0, 97) or not p.startswith("tagmanifest-"))
    ctx.equal(names(got), names(want), what + ": files")
    ctx.equal(got.dirs, want.dirs, what + ": directories")
    for p in want.files:
        if not oracle.is_special(p):
            ctx.check(got.files[p] == want.files[p], what + ": content of %r" % p)
    ops.check_clean_bag(ctx, got, what)
    ctx.equal(oracle.manifests(got)[0], oracle.manifests(want)[0], what + ": payload manifests")
    a, b = oracle.info_of(got), oracle.info_of(want)
    ctx.equal(strip(a, ("Bag-Size",)), strip(b, ("Bag-Size",)), what + ": bag-info")
    ctx.equal("Bag-Size" in a, "Bag-Size" in b, what + ": Bag-Size")
