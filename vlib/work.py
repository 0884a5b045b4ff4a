"""
Operations that can be repeated from the same inputs, for fault and crash
injection: each writes only below a run directory of its own.
"""
import os, shutil, hashlib

from . import gen, oracle, mon, ops, hist
from .ops import *
from multibag import BagError


class Op(object):
    kind = None
    inplace = False            # works on a fresh copy of a bag

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.indir = ctx.path("input")
        os.mkdir(self.indir)
        self.inputs = []       # what must stay as it is
        # whether the file system allows for hard links
        self.links = rng.random() < 0.6
        self.build()

    def fresh(self, rundir):
        "prepare the run directory"
        with mon.quiet():
            os.mkdir(rundir)
            if self.inplace:
                shutil.copytree(self.inplace, self.target(rundir))

    def target(self, rundir):
        return os.path.join(rundir, os.path.basename(self.inplace))

    def run(self, rundir, delivered=None):
        if self.links:
            return self.work(rundir, delivered)
        with mon.nolinks():
            return self.work(rundir, delivered)

    def work(self, rundir, delivered=None):
        raise NotImplementedError()

    def result(self, rundir):
        "the outcome, in a form that can be compared"
        t = oracle.read_tree(rundir)
        return t.files, t.dirs


class Split(Op):
    kind = "split"

    def build(self):
        rng = self.rng
        self.spec = gen.random_spec(rng, nfiles=rng.choice([1, 2, 3, 5]))
        self.src = gen.write_bag(self.spec, self.indir, rng)
        if rng.random() < 0.25:
            s = gen.serialize(self.src, self.src, rng.choice(gen.FORMS), "all", rng)
            with mon.quiet():
                shutil.rmtree(self.src)
            self.src = s
            self.kind = "split archive"
        elif rng.random() < 0.25:
            make_single_multibag(self.src, "1")
            self.kind = "split head"
        self.inputs = [self.src]
        self.groups = None
        mx = rng.choice([1, 100, 500, 3000, 10 ** 9])
        cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
        self.mk = lambda: cls(mx)
        self.manual = not os.path.isfile(self.src) and rng.random() < 0.4
        if self.manual:
            paths = sorted(self.spec.files)
            k = rng.choice([1, 2, 3])
            gs = [[] for i in range(k)]
            for p in paths:
                gs[rng.randrange(k)].append(p)
            self.mk = lambda: ManualSplitter([g for g in gs if g])
            self.kind += " (links)"

    def work(self, rundir, delivered=None):
        if os.path.isfile(self.src):
            plan = SplitPlan(self.src)
            plan.complete_plan()
            plan.name_output_bags(SimpleNamer("out"))
        else:
            plan = self.mk().plan(self.src, "out")
        for p in plan.apply_iter(rundir):
            if delivered is not None:
                delivered(os.path.basename(p))


class Restore(Op):
    kind = "restore"

    def build(self):
        rng, ctx = self.rng, self.ctx
        h = hist.Hist(ctx, rng, nfiles=(0, 1, 2, 3), owndirs=0.15 if self.kind == "restore" else 0.9)
        h.first(rng.choice(["single", "split", "split"]))
        for i in range(rng.choice([0, 0, 1, 1, 2] if self.kind == "restore" else [0, 1, 1, 2])):
            h.amend()
        self.h = h
        self.v = h.versions[-1]
        self.head = h.paths[self.v.head]
        self.inputs = [h.store]
        self.fetch = rng.random() < 0.25
        if rng.random() < 0.5:
            # files that are elsewhere
            with mon.quiet():
                for n, p in sorted(h.paths.items()):
                    if os.path.isdir(p) and not os.path.exists(p + "/fetch.txt"):
                        with open(p + "/fetch.txt", "w", encoding="utf-8") as fd:
                            fd.write("http://x.org/%d 12 data/remote of %s\n" % (len(n), n))

    def result(self, rundir):
        files, dirs = super(Restore, self).result(rundir)
        # the times of the payload files belong to the result
        with mon.quiet():
            for p in list(files):
                if p.split("/")[1:2] == ["data"]:
                    files["time of " + p] = os.stat(os.path.join(rundir, p)).st_mtime_ns
        return files, dirs

    def fetcher(self, name, cache):
        p = self.h.paths[name]
        with mon.quiet():
            dest = os.path.join(cache, os.path.basename(p))
            if os.path.isdir(p):
                shutil.copytree(p, dest)
            else:
                shutil.copy2(p, dest)
        return dest

    def work(self, rundir, delivered=None):
        kw = {"compdir": self.h.store}
        if self.fetch:
            kw = {"fetcher": self.fetcher}
        BagRestorer(self.head, os.path.join(rundir, "restored"), **kw).restore()


class RestoreInPlace(Restore):
    kind = "restore in place"

    def build(self):
        super(RestoreInPlace, self).build()
        self.fetch = False
        if os.path.isfile(self.head):
            t = self.h.trees[self.v.head]
            d = os.path.join(self.indir, self.v.head)
            with mon.quiet():
                for p in sorted(t.dirs):
                    os.makedirs(os.path.join(d, p), exist_ok=True)
                for p, data in t.files.items():
                    with open(os.path.join(d, p), "wb") as fd:
                        fd.write(data)
            self.inplace = d
        else:
            self.inplace = self.head
        if self.rng.random() < 0.5:
            # something that is deleted from the head bag itself
            ps = sorted(p for p in oracle.read_tree(self.inplace).files if p.startswith("data/"))
            if ps:
                hb = HeadBag(self.inplace)
                hb.set_deleted(self.rng.choice(ps))
                hb.save_deleted()
                self.ctx.count("deleted_in_place")

    def work(self, rundir, delivered=None):
        BagRestorer(self.target(rundir), compdir=self.h.store).restore()


class Convert(Op):
    kind = "convert"

    def build(self):
        rng = self.rng
        self.spec = gen.random_spec(rng, nfiles=rng.choice([0, 1, 2, 4]))
        self.inplace = gen.write_bag(self.spec, self.indir, rng)
        self.inputs = [self.inplace]

    def work(self, rundir, delivered=None):
        make_single_multibag(self.target(rundir), "1.2", "urn:x")


class Amend(Op):
    kind = "amend"

    def build(self):
        rng, ctx = self.rng, self.ctx
        h = hist.Hist(ctx, rng, nfiles=(0, 1, 2, 3))
        h.first()
        if rng.random() < 0.5:
            h.amend()
        self.h = h
        self.amendee = h.paths[h.versions[-1].head]
        s = h.spec()
        self.inplace = gen.write_bag(s, self.indir, rng)
        self.others = []
        for i in range(rng.choice([0, 1, 2])):
            p = h.write(h.spec())
            self.others.append(p if rng.random() < 0.5 else h.put(p))
        self.inputs = [h.store, h.work, self.inplace]
        self.delete = rng.random() < 0.4

    def work(self, rundir, delivered=None):
        t = self.target(rundir)
        if self.delete:
            hb = HeadBag(t)
            hb.set_deleted("data/gone for good")
            hb.save_deleted()
        amend_bag_with(self.amendee, t, "7", *self.others)


class Edit(Op):
    kind = "edit"

    def build(self):
        rng = self.rng
        self.spec = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]))
        self.inplace = gen.write_bag(self.spec, self.indir, rng)
        make_single_multibag(self.inplace, "1")
        if rng.random() < 0.6:
            hb = HeadBag(self.inplace)
            hb.set_deleted("data/x1")
            hb.save_deleted()
            hb.save()
        self.inputs = [self.inplace]
        self.steps = [rng.choice(["add", "lookup", "unlook", "delete", "undelete", "remove", "tagdir"])
                      for i in range(rng.choice([1, 2, 4]))]

    def work(self, rundir, delivered=None):
        hb = HeadBag(self.target(rundir))
        for k, s in enumerate(self.steps):
            if s == "add":
                hb.add_member_bag("mem%d" % k, "urn:%d" % k, "comment", ["i"])
            elif s == "lookup":
                hb.add_file_lookup("data/new%d" % k, "mem%d" % k)
            elif s == "unlook":
                hb.remove_file_lookup(sorted(self.spec.files)[0])
            elif s == "delete":
                hb.set_deleted("data/old%d" % k)
            elif s == "undelete":
                hb.unset_deleted("data/x1")
            elif s == "remove":
                hb.remove_member_bag("mem0")
            elif s == "tagdir":
                hb.set_multibag_tag_dir("tags %d" % k, True)
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        hb.save()


class Validate(Op):
    "validation of a damaged bag: it must not pass"
    kind = "validate"

    def build(self):
        rng = self.rng
        self.spec = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]))
        bag = gen.write_bag(self.spec, self.indir, rng)
        make_single_multibag(bag, "1")
        how = rng.choice(["alter", "remove", "member", "none"])
        p = rng.choice(sorted(x for x in self.spec.files if x.startswith("data/")))
        with mon.quiet():
            fp = os.path.join(bag, p)
            if how == "alter":
                with open(fp, "ab") as fd:
                    fd.write(b"!")
            elif how == "remove":
                os.remove(fp)
            elif how == "member":
                with open(os.path.join(bag, "multibag/member-bags.tsv"), "w") as fd:
                    fd.write("someotherbag\n")
                t = oracle.read_tree(bag)
        self.how = how
        self.what = rng.choice(["bag", "headbag", "class"])
        if how == "member" and self.what == "class":
            self.what = "headbag"
        if self.what == "class" and rng.random() < 0.5:
            s = gen.serialize(bag, bag, rng.choice(gen.FORMS), "all", rng)
            with mon.quiet():
                shutil.rmtree(bag)
            bag = s
        self.bag = bag
        self.inputs = [bag]
        self.verdict = {}

    def work(self, rundir, delivered=None):
        self.verdict.pop(rundir, None)
        if self.what == "class":
            ok = open_bag(self.bag).is_valid()
        else:
            from multibag import validate
            from multibag.validate import bag, headbag
            v = (headbag.HeadBagValidator if self.what == "headbag" else bag.BagValidator)(self.bag)
            ok = v.is_valid()
        self.verdict[rundir] = ok

    def result(self, rundir):
        return self.verdict.get(rundir)


OPS = [Split, Restore, RestoreInPlace, Convert, Amend, Edit, Split, Restore]
