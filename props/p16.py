"""
P16: paths in bag content never reach outside of the bag
"""
import os, io, shutil, zipfile, tarfile, hashlib
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag import BagError, HeadBagValidator, MemberBagValidator
from multibag.access.exceptions import MultibagError

ID = "P16"
LEVEL = "exploration"
RULE = ("bags with paths that point outside (in manifests, deleted.txt, the tag directory, the lookup, "
        "fetch.txt, archive entries) and hostile path arguments are read, validated, split, restored, "
        "amended; canary files around the bags may be neither changed, opened nor copied; distinct by "
        "(place of the path, kind of path, operation, outcome)")
ASSUMPTIONS = ["bags do not contain symbolic links (those are followed)",
               "names of member bags are taken as names; where member bags are read from is up to the caller"]
N = {"quick": 1300, "thorough": 6000}
REQUIRED = ["hostile_paths", "operations", "refused", "ignored", "place_manifest", "place_deleted",
            "place_tagdir", "place_lookup", "place_fetch", "fetch_lists_refused", "place_archive", "place_argument"]

MARK = b"CANARY-6b1f-SECRET"


class Zone(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.zone = ctx.path("zone")
        self.spec = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]), hostile=rng.choice([0, 0.4]),
                                    name=rng.choice(["bag", "b.mbag", "my bag", "b"]))
        if self.spec.info is None:
            self.spec.info = []
        with mon.quiet():
            os.makedirs(self.zone)
            self.sib = os.path.join(self.zone, self.spec.name + "2")
            os.makedirs(os.path.join(self.sib, "data"))
            os.makedirs(os.path.join(self.zone, "outside", "sub"))
            os.makedirs(ctx.path("out"))
            self.canaries = [os.path.join(self.sib, "data", "secret.txt"),
                             os.path.join(self.sib, "secret.txt"),
                             os.path.join(self.zone, "outside", "member-bags.tsv"),
                             os.path.join(self.zone, "outside", "file-lookup.tsv"),
                             os.path.join(self.zone, "outside", "deleted.txt"),
                             os.path.join(self.zone, "outside", "sub", "x"),
                             os.path.join(self.zone, "canary.txt"),
                             ctx.path("canary.txt")]
            for c in self.canaries:
                with open(c, "wb") as fd:
                    fd.write(MARK + b"\n")

    def arm(self):
        self.roots = [self.sib, os.path.join(self.zone, "outside"),
                      os.path.join(self.zone, "canary.txt"), self.ctx.path("canary.txt")]
        self.snap = [oracle.snapshot(r) for r in self.roots]
        self.list = set(os.listdir(self.zone)), set(os.listdir(self.ctx.path()))
        mon.watch(*self.roots)

    def hostile(self, dest=None):
        "a path (relative to a bag in the zone) that leads to a canary, and its kind"
        rng, b = self.rng, self.spec.name
        return rng.choice([
            ("../%s2/data/secret.txt" % b, "sibling"), ("../%s2/secret.txt" % b, "sibling"),
            ("data/../../%s2/data/secret.txt" % b, "dotdot inside"),
            ("../canary.txt", "parent"), ("../../canary.txt", "grandparent"),
            ("data/../../canary.txt", "dotdot inside"), ("./../canary.txt", "dot"),
            ("..//canary.txt", "slashes"), ("data/./.././../canary.txt", "dot"),
            (os.path.join(self.zone, "canary.txt"), "absolute"),
            ("../outside/sub/x", "parent"), ("../outside", "directory"), ("..", "dotdot"),
            ("../%s2" % b, "sibling directory"), ("../../canary.txt", "grandparent")])

    def check(self, what, *outs):
        ctx = self.ctx
        rd = mon.reads()
        S = mon.S
        S.watch = []
        ctx.check(not rd, "%s: opened %s" % (what, rd[:2]))
        for r, s in zip(self.roots, self.snap):
            ctx.check(os.path.lexists(r), "%s: removed %s" % (what, r))
            ctx.equal(oracle.snapshot(r), s, "%s: changed %s" % (what, r))
        for o in outs:
            if os.path.isdir(o):
                t = oracle.read_tree(o)
                for p, d in t.files.items():
                    ctx.check(MARK not in d, "%s: copied a file from outside to %r" % (what, p))
        new = (set(os.listdir(self.zone)) - self.list[0]) | (set(os.listdir(ctx.path())) - self.list[1])
        names = set(os.path.basename(o) for o in outs)
        ctx.check(new <= names, "%s: created %s" % (what, new - names))
        ctx.count("operations")


ERRS = (BagError, MultibagError, ValueError, OSError, RuntimeError, TypeError)


def attempt(ctx, f, *a, **kw):
    "run an operation that may be refused; returns (outcome, result)"
    try:
        r = f(*a, **kw)
    except mon.Escape:
        raise
    except Exception as ex:
        # (whatever the type: refused)
        ctx.count("refused")
        return "refused", None
    ctx.count("ignored")
    return "ignored", r


def case(ctx, i):
    rng = ctx.rng
    z = Zone(ctx, rng)
    place = PLACES[i % len(PLACES)]
    ctx.count("place_" + place.__name__)
    ctx.count("hostile_paths")
    place(ctx, rng, z)


def use(ctx, rng, z, bag, place, kind, headsure=False):
    "do something with the bag that has the hostile content"
    op = rng.choice(["validate", "vhead", "vmember", "split", "restore", "amend", "read", "convert",
                     "inplace", "restore"])
    if os.path.isfile(bag) and op in ("inplace", "convert"):
        op = "restore"
    z.arm()
    out = ctx.path("out", "o")

    def run():
        if op == "validate":
            return open_bag(bag).validate()
        if op == "vhead":
            return HeadBagValidator(bag).validate(7)
        if op == "vmember":
            return MemberBagValidator(bag).validate(7)
        if op == "split":
            with mon.quiet():
                os.makedirs(out, exist_ok=True)
            return WellPackedSplitter(maxsize=200).split(bag, out)
        if op == "restore":
            return restore_bag(bag, out)
        if op == "inplace":
            return restore_bag(bag)
        if op == "convert":
            return make_single_multibag(bag, "3")
        if op == "amend":
            s = gen.random_spec(rng, nfiles=1, name="upd")
            s.info = s.info or []
            p = gen.write_bag(s, ctx.path("out"), rng)
            return amend_bag_with(bag, p, "2")
        if op == "read":
            b = open_headbag(bag)
            b.member_bags()
            b.deleted_paths()
            list(b.walk())
            list(b.nonstandard())
            return [b.lookup_file("../canary.txt")]
    res, r = attempt(ctx, run)
    z.check("%s with a %s path in %s (%s)" % (op, kind, place, res), out, ctx.path("out"), bag)
    ctx.feature(place, kind, op, res)
    ctx.sample({"place": place, "kind": kind, "operation": op, "outcome": res})


def manifest(ctx, rng, z):
    path, kind = z.hostile()
    m = rng.choice(["payload", "tag"])
    alg = z.spec.algs[0]
    bag = gen.write_bag(z.spec, z.zone, rng)
    if rng.random() < 0.7:
        make_single_multibag(bag, "1")
    f = os.path.join(bag, ("manifest-%s.txt" if m == "payload" else "tagmanifest-%s.txt") % alg)
    with mon.quiet():
        old = open(f, "rb").read() if os.path.exists(f) else b""
        if os.path.exists(f):
            os.remove(f)
        with open(f, "wb") as fd:
            fd.write(old + ("%s %s\n" % (hashlib.new(alg, MARK + b"\n").hexdigest(), path)).encode())
    # such a manifest must not be accepted
    if kind not in ("dotdot", "directory", "sibling directory") and (m == "payload" or z.spec.version >= "0.97"):
        z.arm()
        res, r = attempt(ctx, lambda: open_bag(bag).validate())
        ctx.check(res == "refused", "a bag whose manifest lists %r is accepted" % path)
        z.check("validating")
    use(ctx, rng, z, bag, "a %s manifest" % m, kind)


def deleted(ctx, rng, z):
    bag = gen.write_bag(z.spec, z.zone, rng)
    make_single_multibag(bag, "1")
    path, kind = z.hostile()
    dest = None
    if kind == "absolute":
        path = rng.choice(z.canaries)
    hb = HeadBag(bag)
    hb.set_deleted(path)
    if rng.random() < 0.5:
        hb.set_deleted(z.hostile()[0])
    hb.save_deleted()
    hb.save()
    how = rng.choice(["zone", "inplace", "out", "prefilled"])
    z.arm()
    dst = {"zone": os.path.join(z.zone, "dest"), "out": ctx.path("out", "o"), "inplace": None,
           "prefilled": os.path.join(z.zone, "dest")}[how]
    if how == "prefilled":
        with mon.quiet():
            shutil.copytree(bag, dst)
    res, r = attempt(ctx, restore_bag, bag, dst)
    z.check("restoring with a %s path in deleted.txt" % kind, dst or bag)
    if res == "ignored":
        got = oracle.read_tree(dst or bag)
        if kind not in ("dotdot",):
            ctx.equal(set(ops.content_files(got)), set(z.spec.files),
                      "files after restoring with %r deleted" % path)
    ctx.feature("deleted.txt", kind, how, res)


def tagdir(ctx, rng, z):
    path, kind = rng.choice([("../outside", "parent"), ("data/../../outside", "dotdot inside"),
                             ("..", "dotdot"), (os.path.join(z.zone, "outside"), "absolute"),
                             ("../%s2" % z.spec.name, "sibling"), ("multibag/../../outside", "dotdot inside")])
    z.spec.info = [x for x in z.spec.info] + [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1"),
                                              ("Multibag-Tag-Directory", path)]
    with mon.quiet():
        for d in (z.sib, z.zone):
            with open(os.path.join(d, "member-bags.tsv"), "wb") as fd:
                fd.write(z.spec.name.encode() + b"\n")
    bag = gen.write_bag(z.spec, z.zone, rng)
    if rng.random() < 0.4:
        z.arm()
        hb = HeadBag(bag)
        for f in (hb.member_bags, hb.deleted_paths, lambda: hb.lookup_file("data/a"),
                  lambda: hb.add_member_bag("x") or hb.save_member_bags(),
                  lambda: hb.add_file_lookup("x", "y") or hb.save_file_lookup(),
                  lambda: hb.set_deleted("x") or hb.save_deleted(),
                  lambda: hb.clear_file_lookup()):
            attempt(ctx, f)
        z.check("editing with a %s tag directory" % kind)
        ctx.feature("tagdir", kind, "edit")
    else:
        use(ctx, rng, z, bag, "Multibag-Tag-Directory", kind)


def lookup(ctx, rng, z):
    bag = gen.write_bag(z.spec, z.zone, rng)
    make_single_multibag(bag, "1")
    path, kind = z.hostile()
    hb = HeadBag(bag)
    hb.add_file_lookup(path, z.spec.name)
    hb.save_file_lookup()
    hb.save()
    use(ctx, rng, z, bag, "file-lookup.tsv", kind)


def fetch(ctx, rng, z):
    path, kind = z.hostile()
    z.spec.extra_raw["fetch.txt"] = ("http://x.org/y 18 %s\n" % path).encode("utf-8")
    bag = gen.write_bag(z.spec, z.zone, rng)
    if rng.random() < 0.7:
        try:
            make_single_multibag(bag, "1")
        except BagError:
            pass
    # (a path that is safe may come before it)
    p = bag if rng.random() < 0.5 else gen.serialize(bag, ctx.path("out", "fa"), rng.choice(gen.FORMS), "all", rng)
    z.arm()
    res, r = attempt(ctx, lambda: list(open_bag(p).fetch_entries()))
    ctx.check(res == "refused", "fetch_entries() gives %r for the path %r" % (r, path))
    z.check("reading fetch.txt")
    ctx.count("fetch_lists_refused")
    use(ctx, rng, z, bag, "fetch.txt", kind)


def archive(ctx, rng, z):
    bag = gen.write_bag(z.spec, z.zone, rng)
    make_single_multibag(bag, "1")
    form = rng.choice(gen.FORMS)
    ar = gen.serialize(bag, ctx.path("out", "arch"), form, "all", rng)
    name = z.spec.name
    path, kind = rng.choice([("../evil.txt", "parent"), (name + "/../../evil.txt", "inside"),
                             (name + "/../evil.txt", "inside"), ("/evil-abs.txt", "absolute"),
                             (name + "/data/../../../evil.txt", "inside")])
    with mon.quiet():
        new = ctx.path("out", "evil" + form)
        if form == ".zip":
            shutil.copy(ar, new)
            with zipfile.ZipFile(new, "a") as zf:
                zf.writestr(path, MARK + b"evil")
        else:
            mode = {".tar": "", ".tgz": "gz", ".tar.gz": "gz", ".tar.bz2": "bz2"}[form]
            with tarfile.open(ar) as a, tarfile.open(new, "w:" + mode) as b:
                for m in a.getmembers():
                    b.addfile(m, a.extractfile(m) if m.isfile() else None)
                ti = tarfile.TarInfo(path)
                ti.size = len(MARK) + 4
                b.addfile(ti, io.BytesIO(MARK + b"evil"))
        shutil.rmtree(bag)
    before = set(os.listdir(ctx.path("out")))
    op = rng.choice(["restore", "split", "validate", "walk"])
    z.arm()
    out = ctx.path("out", "deep", "er", "o")
    os.makedirs(os.path.dirname(out))

    def run():
        if op == "restore":
            restore_bag(new, out)
        elif op == "split":
            os.mkdir(out)
            WellPackedSplitter(maxsize=200).split(new, out)
        elif op == "validate":
            open_bag(new).validate()
        else:
            b = as_extended(open_bag(new))
            for d, ds, fs in b.walk():
                for f in fs:
                    b.replicate("/".join([d, f]).lstrip("/"), os.path.dirname(out))
    res, r = attempt(ctx, run)
    made = set()
    with mon.quiet():
        for d, ds, fs in os.walk(ctx.path()):
            for f in fs:
                if "evil" in f and not f.startswith("evil."  + form.lstrip(".")) and f != "evil" + form:
                    made.add(os.path.relpath(os.path.join(d, f), ctx.path()))
    bad = [m for m in made if not m.startswith("out/deep/er/")]
    ctx.check(not bad, "%s of an archive with an entry %r wrote %s" % (op, path, bad))
    ctx.equal(set(os.listdir(ctx.path("out"))) - before, {"deep"}, "created")
    z.check("%s of an archive with a hostile entry" % op)
    ctx.feature("archive", form, kind, op, res)


def argument(ctx, rng, z):
    bag = gen.write_bag(z.spec, z.zone, rng)
    make_single_multibag(bag, "1")
    form = rng.choice(["", "", ""] + gen.FORMS)
    p = bag
    if form:
        p = gen.serialize(bag, ctx.path("out", "a"), form, "all", rng)
    dest = os.path.join(rng.choice([z.zone, ctx.path("out")]), "dest")
    os.mkdir(dest)
    views = {"ro": lambda: as_extended(open_bag(p)), "head": lambda: open_headbag(p)}
    if not form:
        views.update(rw=lambda: as_extended(Bag(p)), hb=lambda: HeadBag(p),
                     rwslash=lambda: as_extended(Bag(p + "/")))
    v = rng.choice(sorted(views))
    b = views[v]()
    z.arm()
    for k in range(6):
        path, kind = z.hostile()
        if rng.random() < 0.15 and not form and z.spec.payload():
            # out of the bag and in again
            path, kind = "../%s/%s" % (z.spec.name, rng.choice(z.spec.payload())), "out and in"
        for op in ("exists", "isfile", "isdir", "sizeof", "timesfor", "open_text_file", "replicate", "walk"):
            if op == "replicate":
                res, r = attempt(ctx, b.replicate, path, dest)
            elif op == "walk":
                res, r = attempt(ctx, lambda: list(b.walk(path)))
            elif op == "open_text_file":
                def rd():
                    with b.open_text_file(path) as fd:
                        return fd.read()
                res, r = attempt(ctx, rd)
            else:
                res, r = attempt(ctx, getattr(b, op), path)
            if res == "ignored" and kind != "out and in":
                if op in ("exists", "isfile", "isdir"):
                    ctx.check(not r, "%s(%r) is true for a path outside of the bag (%s)" % (op, path, v))
                elif op == "walk" and form:
                    ctx.check(not r, "walk(%r) lists something" % path)
                elif op != "replicate" and kind != "absolute":
                    ctx.fail("%s(%r) gave %r for a path outside of the bag (%s)" % (op, path, r, v))
            ctx.feature("argument", kind, op, v, res)
        if not form and rng.random() < 0.3:
            plan = SplitPlan(bag)
            if hasattr(plan, "_manifests"):
                plan._manifests.append({"name": "p1", "contents": [path], "totalsize": 0})
                out = ctx.path("out", "s%d" % k)
                os.mkdir(out)
                res, r = attempt(ctx, lambda: list(plan.apply_iter(out)))
    z.check("a path argument", dest)
    for n in os.listdir(ctx.path("out")):
        ctx.check(n in ("dest", "a" + form) or n.startswith("s"), "%r was created beside the destination" % n)
    t = oracle.read_tree(dest)
    for p in t.files:
        ctx.check(MARK not in t.files[p], "replicate() copied a file from outside")


PLACES = [manifest, deleted, tagdir, lookup, fetch, archive, argument, argument]
