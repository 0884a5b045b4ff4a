"""
P24: splitting is incremental; a delivered bag is complete and never touched again
"""
import os, shutil
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P24"
LEVEL = "exploration"
RULE = ("random plans are applied one step at a time; after each delivery the bag is examined, then "
        "left, moved, serialized, altered, replaced by something else of the same name or removed; "
        "a file-system monitor watches everything delivered so far for reads and changes, and the "
        "output directory for anything written early; in some runs the iteration is abandoned; "
        "distinct by (kind of plan, number of bags, actions, kind of source)")
ASSUMPTIONS = ["files of a delivered bag are altered by replacing them (they may be hard links to the source)"]
N = {"quick": 1000, "thorough": 5000}
REQUIRED = ["deliveries", "moved", "serialized", "removed", "altered", "replaced", "abandoned",
            "monitored_events", "heads_checked", "in_several_bags"]


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng, nfiles=rng.choice([2, 3, 5, 8, 12]))
    src = gen.write_bag(spec, ctx.path(), rng)
    kind = rng.choice(["plain", "plain", "head"])
    if kind == "head":
        make_single_multibag(src)
    want = oracle.read_tree(src)
    splitter, desc = ops.random_splitter(rng, spec, src)
    plan = splitter.plan(src, ops.basis(rng.choice([None, "base", "iter:nm"])))
    if len(plan._manifests if hasattr(plan, "_manifests") else []) > 1 and rng.random() < 0.3:
        # the same file in several output bags
        for k in range(rng.choice([1, 2])):
            a, b = sorted(rng.sample(range(len(plan._manifests)), 2))
            ps = [p for p in plan._manifests[a]["contents"] if p in want.files and p not in plan._manifests[b]["contents"]
                  and not p.startswith("multibag/")]
            if ps:
                plan._manifests[b]["contents"].append(rng.choice(ps))
                ctx.count("in_several_bags")
    mans = list(plan.manifests())
    names = [m["name"] for m in mans]
    namer = None
    r = rng.random()
    if r < 0.3:
        namer = ListNamer("n")
        names = ["n %02d" % k for k in range(len(mans))]
    elif r < 0.4:
        k = rng.randrange(len(mans) + 1)      # runs out of names
        give = ["given%d" % j for j in range(k)]
        namer = iter(give)
        names = give + names[k:]
    out, store = ctx.path("out"), ctx.path("store")
    os.mkdir(out)
    os.mkdir(store)
    bystander = os.path.join(out, "bystander")
    with mon.quiet():
        with open(bystander, "w") as fd:
            fd.write("x")

    it = plan.apply_iter(out, namer, logger=ops.random_logger(rng))
    ctx.equal(os.listdir(out), ["bystander"], "something was written before a bag was asked for")
    stop = rng.randrange(1, len(mans) + 1) if rng.random() < 0.2 else None
    done, keep, left, acts = [], {}, {}, []
    lookup = {}
    n = 0
    while True:
        before = set(os.listdir(out))
        mon.watch(*list(left))
        # (neither what was delivered, nor what is yet to come)
        mon.protect(*(list(left) + [os.path.join(out, x) for x in names[n + 1:]]))
        nev = mon.S.nevents
        try:
            path = next(it)
        except StopIteration:
            break
        finally:
            ctx.count("monitored_events", mon.S.nevents - nev)
            touched = mon.hits()[:3], mon.reads()[:3]
            mon.unprotect()
            mon.watch()
            mon.S.hits = []
        ctx.check(not touched[0], "a bag already delivered, or a later one, was changed: %s" % (touched[0],))
        ctx.check(not touched[1], "a bag already delivered was read: %s" % (touched[1],))
        ctx.check(n < len(mans), "more bags than planned")
        m = mans[n]
        name = os.path.basename(path)
        ctx.equal(name, names[n], "name of output bag %d" % n)
        ctx.equal(os.path.dirname(path), out, "place of output bag %d" % n)
        ctx.equal(set(os.listdir(out)) - before, {name}, "asking for a bag wrote something else")
        ctx.count("deliveries")
        t = oracle.read_tree(path)
        ops.check_clean_bag(ctx, t, "output bag %d, when delivered," % n)
        ishead = n == len(mans) - 1
        have = ops.content_files(t, ["multibag"])
        plan_files = {p: want.files[p] for p in m["contents"]
                      if p in want.files and not p.startswith("multibag/")}
        ctx.equal(have, plan_files, "the files of output bag %d, when delivered" % n)
        for p in plan_files:
            lookup[p] = name
        ctx.equal("Multibag-Head-Version" in oracle.info_of(t), ishead, "head bag or not")
        if ishead:
            ctx.count("heads_checked")
            ctx.equal([x[0] for x in oracle.parse_members(t.files["multibag/member-bags.tsv"])
                       if x[0] != spec.name], names, "the members listed by the head bag")
            lu = {p: b for p, b in oracle.parse_lookup(t.files["multibag/file-lookup.tsv"]).items()
                  if not p.startswith("multibag/")}
            ctx.equal(lu, lookup, "the lookup of the head bag")
        n += 1
        if stop == n and not ishead:
            it.close()
            ctx.count("abandoned")
            acts.append("abandon")
            ctx.equal(set(os.listdir(out)) - before, {name}, "abandoning the split wrote something")
            break
        left[path] = None
        acts.append(act(ctx, rng, path, store))
        if not os.path.exists(path):
            del left[path]
        for p in list(left):
            left[p] = oracle.snapshot(p)
    else:
        pass
    if "abandon" not in acts:
        ctx.equal(n, len(mans), "number of output bags")
    for p, snap in left.items():
        if snap is not None:
            ctx.equal(oracle.snapshot(p), snap, "a bag already delivered changed")
    ctx.equal(open(bystander).read(), "x", "another file in the output directory changed")
    got = oracle.read_tree(src)
    ctx.equal(got.files, want.files, "the source changed")
    ctx.feature(desc["type"], kind, min(len(mans), 5), ",".join(acts[:4]))
    ctx.sample({"source": spec.describe(), "splitter": desc, "names": names, "actions": acts})


def act(ctx, rng, path, store):
    a = rng.choice(["leave", "moved", "serialized", "removed", "altered", "replaced"])
    with mon.quiet():
        if a == "moved":
            os.rename(path, os.path.join(store, os.path.basename(path)))
        elif a == "serialized":
            where = rng.choice([store, os.path.dirname(path)])
            if where != store:
                where = store
            gen.serialize(path, os.path.join(where, os.path.basename(path)),
                          rng.choice(gen.FORMS), "all", rng)
            shutil.rmtree(path)
        elif a == "removed":
            shutil.rmtree(path)
        elif a == "altered":
            files = []
            for d, s, fs in os.walk(path):
                files += [os.path.join(d, f) for f in fs]
            for f in rng.sample(files, min(3, len(files))):
                os.remove(f)
                if rng.random() < 0.7:
                    with open(f, "w") as fd:
                        fd.write("altered")
            with open(os.path.join(path, "extra"), "w") as fd:
                fd.write("extra")
        elif a == "replaced":
            shutil.rmtree(path)
            if rng.random() < 0.5:
                with open(path, "w") as fd:
                    fd.write("a file instead")
            else:
                os.makedirs(os.path.join(path, "data"))
                with open(os.path.join(path, "data", "other"), "w") as fd:
                    fd.write("other")
    ctx.count(a if a != "leave" else "left")
    return a
