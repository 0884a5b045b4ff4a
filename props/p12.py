"""
P12: a serialized bag reads the same as the directory it was made from
"""
import os, re, contextlib
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag.access.bagit import BagError
from multibag.access.extended import ExtendedReadOnlyBag

ID = "P12"
LEVEL = "exploration"
RULE = ("one bag is opened as a directory (for update and read-only) and from archives in all the "
        "supported formats, with and without entries for directories and with entries in random "
        "order; all that the views tell is compared with an independent reading; distinct by "
        "(form, entries for directories, head bag, special content)")
ASSUMPTIONS = ["archives have one bag, in a directory named like the bag",
               "times are compared to within the two seconds that zip files keep"]


@contextlib.contextmanager
def cd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)


N = {"quick": 1000, "thorough": 5000}
REQUIRED = ["views", "paths_probed", "replicated", "head_views", "walks", "old_bagit_versions", "by_url", "relative_paths", "saves_refused", "big_files",
            "byte_order_marks", "other_encodings", "nested_archives"]


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng)
    spec.files = {p: (d if rng.random() < 0.6 else ("t\u00e9xt %d\nline 2\n" % len(d)).encode("utf-8"))
                  for p, d in spec.files.items()}
    if rng.random() < 0.06 and spec.payload():
        spec.files[rng.choice(spec.payload())] = gen.content(rng, rng.choice([1048576, 1048577, 1300001, 2100000]))
        ctx.count("big_files")
    if rng.random() < 0.3 and spec.payload():
        lines = ["http://x.org/%d %s %s\n" % (k, rng.choice(["-", "12"]), p)
                 for k, p in enumerate(spec.payload()) if p == p.strip()]
        spec.extra_raw["fetch.txt"] = "".join(lines).encode("utf-8")
    if rng.random() < 0.12:
        spec.version = rng.choice(gen.OLD)
        if rng.random() < 0.5:
            # this file means nothing then
            spec.extra_raw["bag-info.txt"] = b"Multibag-Head-Version: 7\nContact-Name: nobody\n"
        ctx.count("old_bagit_versions")
    elif rng.random() < 0.1:
        spec.encoding = rng.choice(["ISO-8859-1", "UTF-16", "utf-8", "windows-1252"])
        try:
            raw = spec.extra_raw
            spec.extra_raw = {p: d.decode("utf-8").encode(spec.encoding) for p, d in raw.items()}
            gen.render(spec)
            ctx.count("other_encodings")
        except UnicodeEncodeError:
            spec.encoding, spec.extra_raw = "UTF-8", raw
    bag = gen.write_bag(spec, ctx.path(), rng)
    ishead = rng.random() < 0.4 and spec.version not in gen.OLD and spec.encoding == "UTF-8"
    if ishead:
        SingleMultibagMaker(bag, rng.choice(["multibag", "multibag", "mb/tags"])).convert("1.5", "doi:1/2")
        hb = HeadBag(bag)
        hb.set_deleted("data/ab c")
        hb.add_member_bag("other bag", None, "with comment")
        hb.add_member_bag(hb.name, "https://x.y/z")
        hb.update_for_member(hb, make_member=False)
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        hb.save()
        if rng.random() < 0.25:
            for f in rng.sample(["member-bags.tsv", "file-lookup.tsv", "deleted.txt"], 2):
                p = os.path.join(bag, hb.multibag_tag_dir, f)
                if os.path.exists(p):
                    with open(p, "rb") as fd:
                        d = fd.read()
                    with open(p, "wb") as fd:
                        fd.write(b"\xef\xbb\xbf" + d)
                    ctx.count("byte_order_marks")
    tree = oracle.read_tree(bag)
    forms = rng.sample(gen.FORMS, rng.choice([1, 2]))
    dirs = rng.choice(["all", "needed"])
    os.mkdir(ctx.path("ar"))
    views = [("directory for update", as_extended(Bag(bag))), ("directory", as_extended(open_bag(bag))),
             ("ReadOnlyBag", as_extended(ReadOnlyBag(bag + rng.choice(["", "/"]))))]
    if rng.random() < 0.4:
        # by a relative path, while some other directory is the working directory
        with cd(rng.choice([ctx.path(), bag, os.path.join(bag, "data")])) as here:
            rel = os.path.relpath(bag, here)
            views.append(("relative", rng.choice([lambda: ExtendedReadOnlyBag(rel), lambda: as_extended(ReadOnlyBag(rel)),
                                                  lambda: as_extended(open_bag(rel))])()))
            views.append(("relative for update", as_extended(Bag(rel))))
            for label, b in views[-2:]:
                ctx.count("views")
                examine(ctx, label + ", there", b, oracle.read_tree(bag), truth(oracle.read_tree(bag)), spec)
            views.pop()       # (bagit keeps the relative path)
            ctx.count("relative_paths")
    if re.match(r"^[A-Za-z0-9_.-]+$", spec.name):
        views.append(("osfs URL", as_extended(open_bag("osfs://" + bag))))
        ctx.count("by_url")
    fname = rng.choice([spec.name, "other name"])
    prefix = ""
    if rng.random() < 0.12:
        prefix = rng.choice(["top/", "top/sub dir/", "a/b/c/"])
        ctx.count("nested_archives")
    for f in forms:
        p = gen.serialize(bag, ctx.path("ar", fname), f, dirs, rng, prefix)
        views.append((f, as_extended(open_bag(p))))
        if ishead:
            views.append((f, open_headbag(p, rng.random() < 0.5)))
    if ishead:
        views.append(("ReadOnlyHeadBag", ReadOnlyHeadBag(bag)))
        views.append(("head directory", open_headbag(bag)))
        views.append(("head directory r/o", open_headbag(bag, True)))
    ctx.note([spec.describe(), forms, dirs, ishead])
    facts = truth(tree)
    for label, b in views:
        ctx.count("views")
        examine(ctx, label, b, tree, facts, spec)
        if isinstance(b, (HeadBag, ReadOnlyHeadBag)):
            ctx.count("head_views")
            head(ctx, label, b, tree)
        ctx.feature(label, dirs, ishead, bool(spec.empty), fname == spec.name,
                    any("bagit.txt" in p for p in spec.files))
    ctx.sample({"bag": spec.describe(), "forms": forms, "dirs": dirs})


def truth(tree):
    pay, tag = oracle.manifests(tree)
    ents = {}
    # (tag manifests are read from BagIt 0.97 on)
    for m in (pay, tag) if oracle.bagit_version(tree) >= (0, 97) else (pay,):
        for alg in m:
            for p in m[alg]:
                ents.setdefault(p, {})[alg] = m[alg][p]
    walk = {"": (set(), set())}
    for d in tree.dirs:
        walk[d] = (set(), set())
    for d in tree.dirs:
        par, _, base = d.rpartition("/")
        walk[par][0].add(base)
    for f in tree.files:
        par, _, base = f.rpartition("/")
        walk[par][1].add(base)
    return {"entries": ents, "walk": walk,
            "nonstandard": set(p for p in tree.files if not oracle.is_special(p)) | tree.empty_dirs()}


def examine(ctx, label, b, tree, facts, spec):
    rng = ctx.rng

    def eq(got, want, what):
        ctx.equal(got, want, "%s: %s" % (label, what))
    eq(b.name, spec.name, "name")
    eq(b.version, spec.version, "version")
    eq(b.encoding, spec.encoding, "encoding")
    got = {k: [oracle.squash(x) for x in (v if isinstance(v, list) else [v])]
           for k, v in b.info.items()}
    eq(got, {k: [oracle.squash(x) for x in v] for k, v in oracle.info_of(tree).items()}, "info")
    eq({p: {a: h.lower() for a, h in e.items()} for p, e in b.entries.items()},
       facts["entries"], "entries")
    eq({p: {a: h.lower() for a, h in e.items()} for p, e in b.payload_entries().items()},
       {p: e for p, e in facts["entries"].items() if p.startswith("data/")}, "payload_entries()")
    eq(sorted(b.payload_files()), sorted(p for p in tree.files if p.startswith("data/")),
       "payload_files()")
    eq(set(os.path.basename(x) for x in b.manifest_files()),
       set(p for p in tree.files if "/" not in p and p.startswith("manifest-") and oracle.is_special(p)),
       "manifest_files()")
    eq(set(os.path.basename(x) for x in b.tagmanifest_files()),
       set(p for p in tree.files if "/" not in p and p.startswith("tagmanifest-") and oracle.is_special(p)),
       "tagmanifest_files()")
    eq(b.is_head_multibag(), oracle.is_head(tree), "is_head_multibag()")
    eq(sorted(b.nonstandard()), sorted(facts["nonstandard"]), "nonstandard()")
    eq(list(b.missing_optional_tagfiles()), [], "missing_optional_tagfiles()")
    if "fetch.txt" in tree.files:
        eq([tuple(x) for x in b.fetch_entries()], oracle.parse_fetch(tree.files["fetch.txt"], spec.encoding),
           "fetch_entries()")
    probe = [("f", p) for p in tree.files] + [("d", p) for p in tree.dirs] + \
            [("-", p) for p in ("data/not there", "nope", "bagit.txt/x", "dat", "data/nope/x")
             if p not in tree.files and p not in tree.dirs]
    rng.shuffle(probe)
    for kind, p in probe[:25]:
        ctx.count("paths_probed")
        eq((b.exists(p), b.isfile(p), b.isdir(p)), (kind != "-", kind == "f", kind == "d"),
           "exists/isfile/isdir(%r)" % p)
        if kind == "f":
            eq(b.sizeof(p), len(tree.files[p]), "sizeof(%r)" % p)
            t = b.timesfor(p)
            ctx.check(abs(t.mtime - tree.mtimes[p]) <= 2, "%s: timesfor(%r): %r is not %r" %
                      (label, p, t.mtime, tree.mtimes[p]))
            if p.endswith(".txt") and oracle.is_special(p) and spec.encoding == "UTF-8" or tree.files[p].startswith(b"t\xc3\xa9xt"):
                with b.open_text_file(p) as fd:
                    eq(fd.read(), tree.files[p].decode("utf-8"), "text of %r" % p)
    start = rng.choice([None, "", "data"] + sorted(tree.dirs))
    got, n = {}, 0
    for d, ds, fs in b.walk(start) if start is not None or rng.random() < 0.5 else b.walk():
        got[d] = (set(ds), set(fs))
        n += len(ds) + len(fs)
    want = {d: x for d, x in facts["walk"].items()
            if not start or d == start or d.startswith(start + "/")}
    ctx.count("walks")
    eq(got, want, "walk(%r)" % start)
    eq(n, sum(len(a) + len(c) for a, c in want.values()), "number of things in walk(%r)" % start)
    # replicate
    dest = ctx.path("dest %d" % ctx.counters["views"])
    os.mkdir(dest)
    some = sorted(tree.files)
    large = [p for p in some if len(tree.files[p]) > 1000000]
    some = [p for p in some if p not in large]
    for p in rng.sample(some, min(5, len(some))) + large + rng.sample(sorted(tree.dirs), 1):
        b.replicate(p, dest)
        ctx.count("replicated")
        q = os.path.join(dest, p)
        if p in tree.files:
            with mon.quiet(), open(q, "rb") as fd:
                eq(fd.read(), tree.files[p], "replica of %r" % p)
        else:
            ctx.check(os.path.isdir(q), "%s: directory %r was not replicated" % (label, p))
    if isinstance(b, ReadOnlyBag):
        try:
            b.save()
            ctx.fail("%s: a bag opened for reading only was saved" % label)
        except BagError:
            ctx.count("saves_refused")
        eq(oracle.read_tree(ctx.path(spec.name)).files == tree.files, True, "bag unchanged by the save() that was refused")
    try:
        b.replicate("data/not there", dest)
        ctx.fail("%s: a non-existing file was replicated" % label)
    except ValueError:
        pass
    ctx.check(not os.path.exists(os.path.join(dest, "data/not there")), "a file from nothing")


def head(ctx, label, b, tree):
    def eq(got, want, what):
        ctx.equal(got, want, "%s: %s" % (label, what))
    eq(b.multibag_tag_dir, oracle.tagdir_of(tree), "multibag_tag_dir")
    eq(b.head_version, oracle.info_of(tree)["Multibag-Head-Version"][0], "head_version")
    eq(b.profile_version, oracle.info_of(tree)["Multibag-Version"][0], "profile_version")
    eq([(m.name, m.uri, m.info, m.comment) for m in b.member_bags()], oracle.members_of(tree),
       "member_bags()")
    eq([m.name for m in b.iter_member_bags()], [m[0] for m in oracle.members_of(tree)],
       "iter_member_bags()")
    eq(dict(b.iter_file_lookup()), dict(oracle.lookup_of(tree)), "iter_file_lookup()")
    eq(sorted(b.deleted_paths()), sorted(oracle.deleted_of(tree)), "deleted_paths()")
    eq(sorted(b.iter_deleted()), sorted(oracle.deleted_of(tree)), "iter_deleted()")
    for p, n in list(oracle.lookup_of(tree).items())[:5]:
        eq(b.lookup_file(p), n, "lookup_file(%r)" % p)
