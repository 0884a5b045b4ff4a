"""
P01: splitting a bag and restoring the aggregation gives the source back
"""
import os, shutil
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P01"
LEVEL = "exploration"
RULE = ("random source bags (hostile names, sizes, empty directories, extra tag files, "
        "algorithm sets, bag-info variants) are split with random splitters, sizes and "
        "names; every output is moved or serialized before the next one is written; the "
        "source is taken away and the aggregation is restored; a situation is distinct by "
        "(splitter, number of output bags, serialized forms used, special content of the "
        "source, way of restoring), and non-trivial when there is at least one payload or "
        "tag file")
ASSUMPTIONS = ["names are legal for the profile; tag files are UTF-8",
               "the source has no directory named multibag of its own",
               "the source has no fetch.txt"]
N = {"quick": 1200, "thorough": 6000}
REQUIRED = ["files_compared", "bags_checked", "serialized_members", "multi_bag_splits", "many_bags"]


def case(ctx, i):
    rng = ctx.rng
    many = i % 60 == 7
    spec = gen.many_spec(rng) if many else gen.random_spec(rng, big=(i % 10 == 0))
    src = gen.write_bag(spec, ctx.path(), rng)
    want = oracle.read_tree(src)
    out, store = ctx.path("out"), ctx.path("store?x y")
    os.mkdir(out)
    os.mkdir(store)
    splitter, desc = ops.many_splitter(rng) if many else ops.random_splitter(rng, spec, src)
    if many:
        ctx.count("many_bags")
    nb, nbdesc = ops.names_for(rng, spec)
    ctx.note(spec.describe())
    ctx.note([desc, nbdesc])
    desc_forms = set()

    stored = []
    lazy = rng.random() < 0.7
    info_nopass = None
    if lazy:
        plan = splitter.plan(src, ops.basis(nb))
        for path in plan.apply_iter(out, logger=ops.random_logger(rng)):
            stored.append(ops.store_member(rng, path, store, True))
    else:
        for path in splitter.split(src, out, ops.basis(nb), logger=ops.random_logger(rng)):
            stored.append(ops.store_member(rng, path, store, True))
    ctx.check(len(stored) > 0, "splitting produced no bags")
    for p in stored:
        if os.path.isfile(p):
            ctx.count("serialized_members")
            desc_forms.add(p[-4:])
    if len(stored) > 1:
        ctx.count("multi_bag_splits")
    with mon.quiet():
        shutil.rmtree(src)
        shutil.rmtree(out)
    head = stored[-1]

    way = rng.choice(["func", "class", "bagobj"])
    dest = ctx.path("restored bag")
    if way == "func":
        got = restore_bag(head, dest, rng.choice([None, store]))
        ctx.check(got.path == dest, "restore_bag() returned another bag than the restored one")
        ctx.check(bool(got.is_valid()), "the restored bag says it is not valid")
    elif way == "class":
        BagRestorer(head, dest).restore()
    else:
        BagRestorer(open_headbag(head), dest, store).restore()

    compare(ctx, want, spec, oracle.read_tree(dest))
    if spec.files:
        special = sorted(set(p.split("/")[-1] for p in spec.files) & set(gen.HOSTILE[:11]))
        ctx.feature(desc["type"], min(len(stored), 6), ",".join(sorted(desc_forms)), way,
                    bool(spec.empty), ",".join(special[:2]), spec.info is None, len(spec.algs))
    ctx.sample({"source": spec.describe(), "splitter": desc, "names": nbdesc,
                "members": [os.path.basename(p) for p in stored], "restored_with": way})


def compare(ctx, want, spec, got):
    ctx.equal(set(ops.content_files(got)), set(ops.content_files(want)),
              "the restored bag has other files than the source")
    for p, data in ops.content_files(want).items():
        ctx.count("files_compared")
        ctx.check(got.files[p] == data, "the content of %r differs from the source" % p)
    ctx.equal(got.dirs, want.dirs, "the restored bag has other directories than the source")
    ctx.equal(got.files["bagit.txt"], want.files["bagit.txt"], "bagit.txt differs")
    ops.check_clean_bag(ctx, got, "the restored bag")
    wp, wt = oracle.manifests(want)
    gp, gt = oracle.manifests(got)
    ctx.equal(gp, wp, "the payload manifests differ from those of the source")
    wi, gi = oracle.info_of(want), oracle.info_of(got)
    for k in ("Payload-Oxum", "Bag-Size"):
        wi.pop(k, None)
        gi.pop(k, None)
    ctx.equal({k: [oracle.squash(x) for x in v] for k, v in gi.items()},
              {k: [oracle.squash(x) for x in v] for k, v in wi.items()},
              "the restored bag-info.txt differs from that of the source")
    ctx.check(oracle.info_of(got).get("Payload-Oxum") ==
              ["%d.%d" % oracle.payload_oxum(got)], "wrong Payload-Oxum in the restored bag")
