"""
P05: operations never change their inputs
"""
import os, shutil, copy
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag import HeadBagValidator, MemberBagValidator
from multibag.validate import BagValidator

ID = "P05"
LEVEL = "exploration"
RULE = ("splitting, amending, restoring, validating and reading run under a file-system monitor "
        "that sees every attempt to change anything in the inputs, also through a hard link; "
        "then the split outputs (which may share their files with the source by hard links) are "
        "amended, edited, restored in place and removed; before/after snapshots must be the "
        "same; distinct by (operation, forms of the inputs, details)")
ASSUMPTIONS = ["access times do not count"]
N = {"quick": 960, "thorough": 6000}
REQUIRED = ["protected_files", "observed_writes", "op_split", "op_amend", "op_restore", "op_read",
            "op_inplace", "hardlinked_outputs", "op_edit_outputs", "arguments", "opened_bags",
            "without_hard_links"]


class Guard(object):
    def __init__(self, ctx, what, *roots):
        self.ctx, self.what, self.roots = ctx, what, roots

    def __enter__(self):
        self.before = [oracle.snapshot(r) for r in self.roots]
        self.ctx.count("protected_files", sum(len(s) for s in self.before))
        mon.protect(*self.roots)
        self.n0 = mon.S.nevents
        return self

    def __exit__(self, et, ev, tb):
        hits = mon.hits()
        mon.unprotect()
        self.ctx.count("observed_writes", mon.S.nevents - self.n0)
        if et is not None and not hits:
            return
        self.ctx.check(not hits, "%s attempted to change an input: %s" % (self.what, hits[:3]))
        for r, b in zip(self.roots, self.before):
            a = oracle.snapshot(r)
            self.ctx.equal(a, b, "%s changed its input %s" % (self.what, os.path.basename(r)))


def info_of(bag):
    return copy.deepcopy(list(bag.info.items())), copy.deepcopy(list(bag.entries.items()))


class Args(object):
    "arguments (lists, and bags already opened) keep what they say"
    def __init__(self, ctx, **kw):
        self.ctx, self.was = ctx, []
        self.add(**kw)

    def add(self, **kw):
        for k, a in kw.items():
            self.was.append((k, a, self.state(a)))

    def state(self, a):
        if isinstance(a, Bag):
            self.ctx.count("opened_bags")
            return info_of(a)
        return copy.deepcopy(a)

    def check(self, what):
        for k, a, b in self.was:
            self.ctx.count("arguments")
            self.ctx.equal(self.state(a), b, "%s changed the argument %s" % (what, k))


def case(ctx, i):
    [split, split, amend, restore, reading, inplace][i % 6](ctx, ctx.rng)


def split(ctx, rng):
    spec = gen.random_spec(rng)
    src = gen.write_bag(spec, ctx.path(), rng)
    headsrc = rng.random() < 0.3
    if headsrc:
        make_single_multibag(src, "1")
        if rng.random() < 0.5:
            hb = HeadBag(src)
            hb.set_deleted("data/x y z")
            hb.save_deleted()
            hb.save()
    out = ctx.path("out")
    os.mkdir(out)
    splitter, desc = ops.random_splitter(rng, spec, src)
    ctx.note([spec.describe(), desc, headsrc])
    # plans made from a path or from a bag opened for update use hard links
    direct = rng.random() < 0.6
    nopass = rng.choice([None, [], ["Contact-Name"], ["Bag-Size", "X-Custom"]])
    given = [Bag(src), open_bag(src)]
    args = Args(ctx, nopass=nopass, bag=given[0], robag=given[1])
    if desc["type"] != "manual":
        fh = [p for p in desc["args"].get("forhead", [])]
        args.add(forhead=fh)
        splitter = type(splitter)(**dict(desc["args"], forhead=fh))
    with Guard(ctx, "splitting", src), ops.maybe_nolinks(ctx, rng):
        if direct:
            plan = SplitPlan(rng.choice([src] + given))
            mine = splitter.plan(src)
            if hasattr(plan, "_manifests"):
                plan._manifests = list(mine.manifests())
            plan.complete_plan()
            plan.name_output_bags(ops.ListNamer("o"))
            paths = list(plan.apply_iter(out, None, nopass))
        else:
            paths = splitter.split(src, out, None, nopass)
    args.check("splitting")
    ctx.count("op_split")
    links = 0
    for p in paths:
        for d, ds, fs in os.walk(p):
            links += sum(os.lstat(os.path.join(d, f)).st_nlink > 1 for f in fs)
    if links:
        ctx.count("hardlinked_outputs")
    after = rng.choice(["inplace", "amend", "edit", "restore", "remove", "single"])
    with Guard(ctx, "working with the output bags (%s)" % after, src):
        ctx.count("op_edit_outputs")
        if after == "inplace":
            restore_bag(paths[-1])
        elif after == "restore":
            BagRestorer(paths[-1], ctx.path("dest")).restore()
        elif after == "edit":
            hb = HeadBag(paths[-1])
            hb.add_member_bag("another", "doi:1")
            hb.set_deleted("data/gone")
            hb.add_file_lookup("data/gone", "another")
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
            hb.update_info("2")
            hb.save(manifests=rng.random() < 0.5)
        elif after == "amend":
            if len(paths) > 1:
                amend_bag_with(paths[0], paths[-1], "3", *paths[1:-1])
            else:
                make_single_multibag(paths[-1])
        elif after == "single":
            make_single_multibag(paths[0], "7")
        else:
            for p in paths:
                shutil.rmtree(p)
    ctx.feature("split", desc["type"], direct, bool(links), headsrc, after, min(len(paths), 4))
    ctx.sample({"op": "split then " + after, "source": spec.describe(), "hard_links": links})


def amend(ctx, rng):
    h = hist.Hist(ctx, rng)
    h.first()
    # everything stored so far is an input of each of the amendments
    for k in range(rng.choice([1, 1, 2])):
        h.amend_roots = list(h.paths.values())
        with Guard(ctx, "amending", *h.amend_roots):
            h.amend()
        ctx.count("op_amend")
    # an amending bag that is not put away is an input, too
    s1, s2 = h.spec(), h.spec()
    p1, p2 = h.write(s1), h.write(s2)
    old = h.paths[h.versions[-1].head]
    oldbag = rng.choice([old, open_bag(old)] + ([Bag(old)] if os.path.isdir(old) else []))
    inc, exc, info = [rng.choice([None, ["data"], ["data", "data/x"]]), rng.choice([None, ["data/y"]]),
                      rng.choice([[], ["a", "b"]])]
    args = Args(ctx, amendee=oldbag, include=inc, exclude=exc, info=info)
    with Guard(ctx, "amending", p1, old):
        if rng.random() < 0.4:
            amend_bag_with(oldbag, p2, "99", p1)
        else:
            m1 = rng.choice([p1, open_bag(p1), Bag(p1)])
            args.add(member=m1)
            am = Amender(oldbag, p2, info=info)
            am.init_from_amendee()
            am.add_amending_bag(m1, inc, exc, info=info)
            am.finalize("99", inc, exc)
    args.check("amending")
    ctx.count("op_amend")
    ctx.feature("amend", ",".join(h.kinds), os.path.isdir(old))
    ctx.sample({"op": "amend", "steps": h.kinds})


def restore(ctx, rng):
    h = hist.build(ctx)
    v = rng.choice([x for x in h.versions if x.version])if any(x.version for x in h.versions) else None
    if not v:
        return
    dest = ctx.path("dest")
    with Guard(ctx, "restoring", h.store), ops.maybe_nolinks(ctx, rng):
        if rng.random() < 0.5:
            restore_bag(h.paths[v.head], dest)
        else:
            r = BagRestorer(open_headbag(h.paths[v.head], rng.random() < 0.5), dest, h.store)
            r.restore(rng.random() < 0.5, rng.random() < 0.5)
    # working on the restored bag must not reach the members either
    with Guard(ctx, "editing the restored bag", h.store):
        b = Bag(dest)
        b.info["X"] = "y"
        b.save(manifests=True)
        make_single_multibag(dest, "10")
    ctx.count("op_restore")
    ctx.feature("restore", ",".join(h.kinds))
    ctx.sample({"op": "restore", "steps": h.kinds})


def inplace(ctx, rng):
    h = hist.Hist(ctx, rng, forms=True)
    h.first(rng.choice(["single", "split"]))
    for k in range(rng.choice([0, 1, 2])):
        h.amend()
    v = h.versions[-1]
    head = h.paths[v.head]
    if os.path.isfile(head):
        return
    others = [h.paths[n] for n in h.paths if n != v.head]
    with Guard(ctx, "restoring in place", *others), ops.maybe_nolinks(ctx, rng):
        restore_bag(head, None, h.store)
    ctx.count("op_inplace")
    ctx.feature("inplace", ",".join(h.kinds))


def reading(ctx, rng):
    h = hist.build(ctx, rng.choice([0, 1, 2]))
    with Guard(ctx, "validating and reading", h.store):
        for n, p in h.paths.items():
            BagValidator(p).validate(7)
            MemberBagValidator(p).validate(7)
            b = open_bag(p)
            b.validate(processes=rng.choice([1, 2]))
            as_extended(b)
            list(b.walk())
            list(b.nonstandard())
            if os.path.isdir(p):
                list(as_extended(Bag(p)).nonstandard())
            if is_headbag(p):
                HeadBagValidator(p).validate(7)
                hb = open_headbag(p, rng.random() < 0.5)
                hb.member_bags()
                hb.deleted_paths()
                hb.lookup_file("data/x")
                hb.files_in_member("x")
                list(hb.iter_file_lookup())
                r = BagRestorer(p, ctx.path("nowhere"))
                r.find_member_bag(n)
    ctx.check(not os.path.exists(ctx.path("nowhere")), "something was written for nothing")
    ctx.count("op_read")
    ctx.feature("read", ",".join(h.kinds), len(h.paths))
