"""
P02: a split plan covers every file of the source exactly once, and the output bags
     hold exactly what the plan says
"""
import os
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag.access.bagit import BagError

ID = "P02"
LEVEL = "exploration"
RULE = ("random source bags are planned and split; the plan (required/missing/is_complete/"
        "find_destination/manifests) and the output bags are compared with an independent "
        "listing of the source; distinct by (splitter, number of output bags, empty "
        "directories, special-looking names, zero-sized files, tag files)")
ASSUMPTIONS = ["names are legal for the profile"]
N = {"quick": 1400, "thorough": 6000}
REQUIRED = ["planned_paths", "output_files", "partial_plans", "empty_plans_refused", "bad_sources_refused", "names_ran_out",
            "named_later", "changed_descriptions", "found_in_last", "with_logger", "gone_since_planned", "many_bags", "come_since_planned"]


def required_of(tree):
    out = set(p for p in tree.files if not oracle.is_special(p))
    return out | tree.empty_dirs()


def case(ctx, i):
    rng = ctx.rng
    many = i % 40 == 7
    spec = gen.many_spec(rng) if many else gen.random_spec(rng)
    src = gen.write_bag(spec, ctx.path(), rng)
    tree = oracle.read_tree(src)
    need = required_of(tree)
    out = ctx.path("out")
    os.mkdir(out)
    splitter, desc = ops.many_splitter(rng) if many else ops.random_splitter(rng, spec, src)
    if many:
        ctx.count("many_bags")
    nb, nbdesc = ops.names_for(rng, spec)
    ctx.note(spec.describe())
    ctx.note([desc, nbdesc])

    # an empty plan is missing everything; completing it makes it complete
    plan = SplitPlan(rng.choice([src, ReadOnlyBag(src), open_bag(src), Bag(src)]))
    req = list(plan.required())
    ctx.equal(sorted(req), sorted(need), "required() does not list what the source holds")
    ctx.equal(sorted(plan.missing()), sorted(need), "missing() of an empty plan")
    ctx.equal(plan.is_complete(), not need, "is_complete() of an empty plan")
    ctx.equal(list(plan.manifests()), [], "manifests() of an empty plan")
    ctx.check(plan.find_destination("data/nope") is None, "destination found in an empty plan")
    ctx.count("partial_plans")
    try:
        got = list(plan.apply_iter(out, None, None, ops.random_logger(rng)))
        ctx.fail("an empty plan was applied (%d output bags, %d files are missing)" % (len(got), len(need)))
    except RuntimeError:
        ctx.equal(os.listdir(out), [], "applying an empty plan wrote something")
        ctx.count("empty_plans_refused")
    if rng.random() < 0.3:
        # what cannot be split
        for x in rng.sample([ctx.path("nowhere"), 3, None, ["x"], {}, src.encode()], 2):
            try:
                SplitPlan(x)
                ctx.fail("a plan for splitting %r" % (x,))
            except (ValueError, BagError, OSError, TypeError):
                ctx.count("bad_sources_refused")
    plan.complete_plan()
    ctx.check(plan.is_complete(), "complete_plan() left files out")
    ctx.equal(list(plan.missing()), [], "missing() of a completed plan")
    n = len(list(plan.manifests()))
    plan.complete_plan()
    ctx.equal(len(list(plan.manifests())), n, "complete_plan() changed a complete plan")

    # the splitter's plan
    plan = splitter.plan(src, ops.basis(nb))
    ctx.check(plan.is_complete(), "the splitter's plan is not complete")
    ctx.equal(list(plan.missing()), [], "the splitter's plan is missing files")
    mans = list(plan.manifests())
    if rng.random() < 0.3:
        # what is returned is a description; changing it does not change the plan
        for m in plan.manifests():
            m["contents"].reverse()
            m["contents"][:1] = []
            m["name"] = "something else"
            m["totalsize"] = 0
        ctx.equal(list(plan.manifests()), mans, "the plan, after its description was changed")
        ctx.check(plan.is_complete(), "the plan is not complete after its description was changed")
        ctx.count("changed_descriptions")
    dest = {}
    for m in mans:
        for p in m["contents"]:
            ctx.count("planned_paths")
            ctx.check(p not in dest, "the plan assigns %r to two output bags" % p)
            dest[p] = m["name"]
    ctx.equal(set(dest), need, "the plan does not cover the source")
    ctx.equal([bool(m["ishead"]) for m in mans], [False] * (len(mans) - 1) + [True] * bool(mans),
              "the last output bag must be the (only) head bag")
    ctx.check(len(set(m["name"] for m in mans)) == len(mans), "output bag names are not unique")
    for p in dest:
        fd = plan.find_destination(p)
        ctx.check(fd is not None and fd["name"] == dest[p], "find_destination(%r) is wrong" % p)
    ctx.check(plan.find_destination("data/not there at all") is None,
              "a destination was found for a file that is not in the source")
    if len(mans) > 1 and hasattr(plan, "_manifests") and rng.random() < 0.3:
        # a file planned for two bags will be read from the later one
        other = splitter.plan(src, ops.basis(nb))
        if [m["contents"] for m in other.manifests()] == [m["contents"] for m in mans]:
            a, b = sorted(rng.sample(range(len(mans)), 2))
            if mans[a]["contents"]:
                p = rng.choice(mans[a]["contents"])
                other._manifests[b]["contents"].append(p)
                fd = other.find_destination(p)
                ctx.check(fd is not None and fd["name"] == mans[b]["name"],
                          "find_destination() of a file in two bags is not the last one")
                ctx.count("found_in_last")
    for m in mans:
        if desc["type"] != "manual" and not any(p in tree.dirs for p in m["contents"]):
            ctx.equal(m["totalsize"], sum(len(tree.files[p]) for p in m["contents"]),
                      "wrong total size in the plan for " + m["name"])

    # names that run out are noticed when they are asked for at planning
    if rng.random() < 0.3:
        k = rng.randrange(len(mans))
        try:
            splitter.plan(src, iter(["given%d" % j for j in range(k)]))
            ctx.fail("a plan for %d bags was made with only %d names" % (len(mans), k))
        except RuntimeError:
            ctx.count("names_ran_out")
    # names may be given later, and in reverse
    if rng.random() < 0.3:
        rev = rng.random() < 0.5
        given = ["later %d" % (k + 1) for k in range(len(mans))]
        plan.name_output_bags(iter(given + ["one too many"]), rev)
        for m, nm in zip(mans, reversed(given) if rev else given):
            m["name"] = nm
        ctx.equal([m["name"] for m in plan.manifests()], [m["name"] for m in mans],
                  "names given later%s" % (rev and ", in reverse" or ""))
        ctx.count("named_later")
    elif rng.random() < 0.2:
        plan.name_output_bags(SimpleNamer("simple"))
        for k, m in enumerate(mans):
            m["name"] = "simple_%d.mbag" % (k + 1)
        ctx.equal([m["name"] for m in plan.manifests()], [m["name"] for m in mans], "simple names")
    logger = ops.random_logger(rng)
    cands = [p for m in mans for p in m["contents"] if p in tree.files]
    if len(cands) > 1 and rng.random() < 0.2:
        # what has gone since the plan was made is left out; everything else is there
        with mon.quiet():
            for p in rng.sample(cands, rng.choice([1, 1, min(2, len(cands) - 1)])):
                os.remove(os.path.join(src, p))
                need.discard(p)
                del tree.files[p]
        ctx.count("gone_since_planned")
    if rng.random() < 0.2:
        # what has come since is missing from the plan
        late = rng.choice(["data/came later", "data/sub dir/came later", "came later.txt"])
        lf = os.path.join(src, late)
        before = sorted(plan.missing())
        with mon.quiet():
            had = os.path.isdir(os.path.dirname(lf))
            os.makedirs(os.path.dirname(lf), exist_ok=True)
            with open(lf, "w") as fd:
                fd.write("late")
        ctx.equal(sorted(plan.missing()), sorted([x for x in before if not late.startswith(x + "/")] + [late]), "missing() after a file has come to the source")
        ctx.check(not plan.is_complete(), "a plan is complete although it lacks a file that has come to the source")
        with mon.quiet():
            os.remove(lf)
            if not had:
                os.rmdir(os.path.dirname(lf))
        ctx.equal(sorted(plan.missing()), before, "missing() after that file has gone again")
        ctx.count("come_since_planned")
    paths = list(plan.apply_iter(out, logger=logger))
    if logger:
        ctx.count("with_logger")
    ctx.equal([os.path.basename(p) for p in paths], [m["name"] for m in mans],
              "the output bags are not the planned ones")
    ctx.equal(set(os.listdir(out)), set(m["name"] for m in mans),
              "unexpected things in the output directory")
    seen = set()
    for m, path in zip(mans, paths):
        t = oracle.read_tree(path)
        have = ops.content_files(t, exclude=["multibag"] if m["ishead"] else [])
        ctx.equal(set(have), set(p for p in m["contents"] if p in tree.files),
                  "%s does not hold the planned files" % m["name"])
        for p in have:
            ctx.count("output_files")
            ctx.check(have[p] == tree.files[p], "the copy of %r differs from the source" % p)
        for p in m["contents"]:
            if p in tree.dirs:
                ctx.count("empty_dirs")
                ctx.check(p in t.dirs, "empty directory %r is missing in the output" % p)
        seen |= set(have)
    ctx.equal(seen, set(p for p in need if p in tree.files), "files were lost in the split")
    special = sorted(set(p.split("/")[-1] for p in spec.files) & set(gen.HOSTILE[:11]))
    ctx.feature(desc["type"], min(len(mans), 8), bool(spec.empty), ",".join(special[:2]),
                any(not d for d in spec.files.values()),
                any(not p.startswith("data/") for p in spec.files), nbdesc == "default")
    ctx.sample({"source": spec.describe(), "splitter": desc,
                "plan": [[m["name"], m["contents"]] for m in mans]})
