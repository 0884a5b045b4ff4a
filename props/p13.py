"""
P13: an operation gives the same result on a serialized bag as on its directory
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag import HeadBagValidator, MemberBagValidator

ID = "P13"
LEVEL = "exploration"
RULE = ("the same aggregation is kept as directories and, in parallel, serialized in random "
        "formats; it is restored, amended, split and validated from both and the results are "
        "compared byte by byte; distinct by (operation, formats, kinds of steps)")
ASSUMPTIONS = ["the order of the lines of manifests, of the file lookup and of the deleted paths does not matter"]
N = {"quick": 600, "thorough": 3000}
REQUIRED = ["restored_pairs", "amended_pairs", "split_pairs", "validated_pairs", "serialized", "big_files"]


def canon(tree, sizes=True):
    out = {}
    for path, d in tree.files.items():
        p = path.split("/", 1)[-1] if path.startswith("part ") else path
        if oracle.MANIF.match(p):
            if p.startswith("tagmanifest") and not sizes:
                continue
            d = sorted(d.split(b"\n"))
        elif p == "bag-info.txt" and not sizes:
            d = [x for x in d.split(b"\n") if not x.startswith(b"Bag-Size")]
        elif p.endswith(("/deleted.txt", "/file-lookup.tsv")):
            d = sorted(d.split(b"\n"))
        out[path] = d
    return out


def same(ctx, a, b, what):
    a, b = oracle.read_tree(a), oracle.read_tree(b)
    ctx.equal(canon(b, False), canon(a, False), what + " (serialized and not)")
    ctx.equal(b.dirs, a.dirs, what + ": directories")


def case(ctx, i):
    [restore, amend, split][i % 3](ctx, ctx.rng)


def twin(ctx, rng, h):
    other = ctx.path("ser")
    os.mkdir(other)
    out, forms = {}, set()
    for n, p in h.paths.items():
        if rng.random() < 0.8:
            f = rng.choice(gen.FORMS)
            out[n] = gen.serialize(p, os.path.join(other, n), f, rng.choice(["all", "needed"]), rng)
            forms.add(f)
            ctx.count("serialized")
        else:
            with mon.quiet():
                shutil.copytree(p, os.path.join(other, n))
            out[n] = os.path.join(other, n)
    return other, out, ",".join(sorted(forms))


def restore(ctx, rng):
    h = hist.Hist(ctx, rng, forms=False)
    h.first(rng.choice(["single", "split"]))
    for k in range(rng.choice([0, 1, 2])):
        h.amend()
    other, paths, forms = twin(ctx, rng, h)
    v = h.versions[-1]
    args = (True, True) if rng.random() < 0.6 else (rng.random() < 0.5, rng.random() < 0.5)
    BagRestorer(h.paths[v.head], ctx.path("d1")).restore(*args)
    BagRestorer(paths[v.head], ctx.path("d2")).restore(*args)
    same(ctx, ctx.path("d1"), ctx.path("d2"), "the restored bag")
    ctx.count("restored_pairs")
    for n in h.paths:
        for V in (HeadBagValidator, MemberBagValidator):
            r = []
            for p in (h.paths[n], paths[n]):
                res = V(p).validate(7)
                r.append([(x.type, x.label, x.specification, x.passed()) for x in res.applied()])
            ctx.equal(r[1], r[0], "validation of %r (serialized and not)" % n)
            ctx.count("validated_pairs")
    ctx.feature("restore", forms, ",".join(h.kinds), args)
    ctx.sample({"op": "restore", "steps": h.kinds, "forms": forms})


def amend(ctx, rng):
    h = hist.Hist(ctx, rng, forms=False)
    h.first()
    for k in range(rng.choice([0, 1])):
        h.amend()
    s1, s2 = h.spec(), h.spec()
    p1, p2 = h.write(s1), h.write(s2)
    other, paths, forms = twin(ctx, rng, h)
    with mon.quiet():
        os.mkdir(ctx.path("second"))
        shutil.copytree(p2, ctx.path("second", s2.name))
    old = h.versions[-1].head
    extra = rng.random() < 0.7
    ser = gen.serialize(p1, os.path.join(other, s1.name), rng.choice(gen.FORMS),
                        rng.choice(["all", "needed"]), rng)
    amend_bag_with(h.paths[old], p2, "9", *([p1] if extra else []))
    amend_bag_with(paths[old], ctx.path("second", s2.name), "9", *([ser] if extra else []))
    same(ctx, p2, ctx.path("second", s2.name), "the amended head bag")
    ctx.count("amended_pairs")
    ctx.feature("amend", forms, ",".join(h.kinds), extra)


def large(ctx, rng, spec):
    if rng.random() < 0.1 and spec.payload():
        spec.files[rng.choice(spec.payload())] = gen.content(rng, rng.choice([1048576, 1300001, 2100000]))
        ctx.count("big_files")


def split(ctx, rng):
    spec = gen.random_spec(rng)
    large(ctx, rng, spec)
    if spec.info is None:
        spec.info = []
    bag = gen.write_bag(spec, ctx.path(), rng)
    if rng.random() < 0.3:
        make_single_multibag(bag, "2")
    f = rng.choice(gen.FORMS)
    os.mkdir(ctx.path("ar"))
    ar = gen.serialize(bag, ctx.path("ar", spec.name), f, rng.choice(["all", "needed"]), rng)
    outs = []
    paths = sorted(spec.files)
    rng.shuffle(paths)
    cut = rng.randrange(0, len(paths) + 1)
    for k, src in enumerate([bag, ar, open_bag(ar)]):
        out = ctx.path("out%d" % k)
        os.mkdir(out)
        plan = SplitPlan(src)
        ctx.equal(sorted(plan.required()), sorted(oracle_required(bag)), "required()")
        if cut and hasattr(plan, "_manifests"):
            plan._manifests.append({"contents": paths[:cut], "totalsize": 0})
        plan.complete_plan()
        plan.name_output_bags(ops.ListNamer("part"))
        ctx.equal(list(plan.missing()), [], "missing() of a completed plan")
        list(plan.apply_iter(out))
        outs.append(out)
    same(ctx, outs[0], outs[1], "the output bags")
    same(ctx, outs[0], outs[2], "the output bags")
    ctx.count("split_pairs")
    ctx.count("serialized")
    ctx.feature("split", f, cut > 0, bool(spec.empty), len(spec.algs), spec.version)
    ctx.sample({"op": "split", "source": spec.describe(), "form": f})


def oracle_required(bag):
    t = oracle.read_tree(bag)
    return set(p for p in t.files if not oracle.is_special(p)) | t.empty_dirs()
