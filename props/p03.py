"""
P03: every output bag of a split is a valid bag on its own and the set of them is a
     profile-compliant aggregation
"""
import os
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag import HeadBagValidator, MemberBagValidator, validate_headbag, validate_memberbag
from multibag.constants import CURRENT_VERSION

ID = "P03"
LEVEL = "exploration"
RULE = ("random sources (including ones that already are head bags) are split and every "
        "output is judged by an independent BagIt and profile checker and by the library's own "
        "validators; distinct by (splitter, number of outputs, naming, algorithms, tag "
        "manifests, BagIt version, head source)")
ASSUMPTIONS = ["the source bag is valid"]
N = {"quick": 1200, "thorough": 5000}
REQUIRED = ["bags_checked", "heads_checked", "nonheads_checked", "head_sources", "many_bags", "member_replaced"]


def case(ctx, i):
    rng = ctx.rng
    many = i % 40 == 7
    spec = gen.many_spec(rng) if many else gen.random_spec(rng)
    headsrc = i % 6 == 0
    src = gen.write_bag(spec, ctx.path(), rng, mtimes=not headsrc)
    before = []
    if headsrc:
        with mon.quiet():
            for d, ds, fs in os.walk(src):
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o644)
        make_single_multibag(src, "1.3")
        ctx.count("head_sources")
        if rng.random() < 0.5 and spec.payload():
            # it deletes a file of another member
            hb = HeadBag(src)
            before = ["earlier bag"] + rng.sample(["applied 00", "applied 01", "late 00", "older"], rng.choice([0, 1, 2]))
            hb.set_member_bags([MemberInfo(n) for n in before] + list(hb.member_bags()))
            hb.save_member_bags()
            gone = ["data/obsolete"] + rng.sample(sorted(spec.files), rng.choice([0, 1]))
            for p in gone:
                hb.set_deleted(p)
            hb.save_deleted()
            hb.save()
    tree = oracle.read_tree(src)
    out = ctx.path("out")
    os.mkdir(out)
    splitter, desc = ops.many_splitter(rng) if many else ops.random_splitter(rng, spec, src)
    if many:
        ctx.count("many_bags")
    nb, nbdesc = ops.names_for(rng, spec)
    ctx.note(spec.describe())
    ctx.note([desc, nbdesc, headsrc])
    namer = ops.basis(nb)
    how = rng.random()
    if how < 0.5:
        paths = splitter.split(src, out, namer)
    elif how < 0.75:
        plan = splitter.plan(src)
        k = len(list(plan.manifests()))
        it = ops.ListNamer("late")
        rev = rng.random() < 0.5
        plan.name_output_bags(it, rev)
        ctx.equal([m["name"] for m in plan.manifests()],
                  list(reversed(it.given)) if rev else it.given, "name_output_bags()")
        paths = list(plan.apply_iter(out))
        namer = None
        ctx.equal([os.path.basename(p) for p in paths],
                  list(reversed(it.given)) if rev else it.given, "names of the output bags")
    else:
        plan = splitter.plan(src)
        it = ops.ListNamer("applied")
        paths = list(plan.apply_iter(out, naming_iter=iter(it)))
        namer = None
        ctx.equal([os.path.basename(p) for p in paths], it.given, "names of the output bags")
    names = [os.path.basename(p) for p in paths]
    if isinstance(namer, ops.ListNamer):
        ctx.equal(names, namer.given, "names of the output bags")
    elif how < 0.5:
        base = namer or os.path.splitext(spec.name)[0]
        ctx.equal(names, ["%s_%d.mbag" % (base, k + 1) for k in range(len(names))],
                  "default names of the output bags")

    for k, p in enumerate(paths):
        t = oracle.read_tree(p)
        last = k == len(paths) - 1
        ops.check_clean_bag(ctx, t, "output bag %d of %d" % (k + 1, len(paths)))
        probs = oracle.profile_problems(t)
        ctx.check(not probs, "%s does not comply with the profile: %s" % (names[k], probs[:3]))
        ctx.equal(oracle.is_head(t), last, "only the last output bag may be the head bag")
        info = oracle.info_of(t)
        ctx.equal(info.get("Multibag-Version"), [CURRENT_VERSION], "Multibag-Version")
        ctx.equal(t.files["bagit.txt"], tree.files["bagit.txt"], "bagit.txt of an output bag")
        # a payload manifest for each of the source's algorithms, with the source's hashes
        sp, st = oracle.manifests(tree)
        gp, gt = oracle.manifests(t)
        ctx.equal(set(gp), set(sp), "algorithms of the payload manifests")
        for alg in gp:
            ctx.equal(gp[alg], {q: sp[alg][q] for q in t.files if q in sp[alg]},
                      "manifest-%s.txt of an output bag" % alg)
        if "Payload-Oxum" in oracle.info_of(tree):
            ctx.check("Payload-Oxum" in info, "Payload-Oxum is missing from an output bag")
        if last:
            ctx.count("heads_checked")
            if set(before) & set(names):
                ctx.count("member_replaced")
            ctx.equal([m[0] for m in oracle.members_of(t)], [n for n in before if n not in names] + names,
                      "the member list")
            res = HeadBagValidator(p).validate()
            ctx.check(not res.failed(3), "the head bag validator reports: %s" %
                      [str(f) for f in res.failed(3)][:2])
            validate_headbag(p)
            ctx.check(is_headbag(p), "is_headbag() is False for the head bag")
            if before:
                ctx.equal(sorted(oracle.deleted_of(t)), sorted(gone), "the list of deleted files")
        else:
            ctx.count("nonheads_checked")
            ctx.check(not is_headbag(p), "is_headbag() is True for a non-head bag")
            ctx.check(not MemberBagValidator(p).validate(1).failed(1),
                      "the member bag validator reports errors")
            if not headsrc:
                ctx.check("multibag" not in t.dirs, "a multibag tag directory in a non-head bag")
            ctx.check("Multibag-Head-Deprecates" not in info, "a non-head bag deprecates a head")
    ctx.feature(desc["type"], min(len(paths), 6), nbdesc == "default", len(spec.algs),
                len(spec.tagalgs), spec.version, headsrc, spec.info is None)
    ctx.sample({"source": spec.describe(), "splitter": desc, "outputs": names})
