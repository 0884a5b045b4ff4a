"""
P32: requests that cannot be fulfilled are refused, and nothing is changed by them
"""
import os, shutil, zipfile, tarfile, io
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag import HeadBagValidator, MemberBagValidator
from multibag.validate.bag import BagValidator
from multibag.access.extended import ExtendedReadOnlyBag

ID = "P32"
LEVEL = "exploration"
RULE = ("operations are asked to work on what is not there, is not a bag, is not a head bag, is a damaged or unknown "
        "archive, lacks its member list, or on destinations that cannot be; each has to raise, the file system monitor may "
        "not see a change of anything that was there, and the request has to succeed when it is then made rightly; "
        "distinct by (operation, what is wrong, kind of error)")
ASSUMPTIONS = ["the new head bag of an amendment that is refused because of another amending bag may have been changed"]
N = {"quick": 1200, "thorough": 5000}
REQUIRED = ["refused", "restores", "amendments", "conversions", "splits", "opened", "edits", "damaged_lists", "done_rightly",
            "amended_by_itself", "no_member_list", "destinations"]

NOT_BAGS = ["nope", "nope/deep", "empty", "file.txt", "bag.xyz", "nobag", "broken", "cut", "nobagit", "onlydata", "dangling", "bak", "tilde"]


class World(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.dir = ctx.path("world")
        self.serial = 0
        p = self.p
        with mon.quiet():
            os.makedirs(p("empty"))
            os.makedirs(p("out"))
            os.makedirs(p("onlydata", "data"))
            open(p("empty file"), "w").close()
            for n in ("file.txt", "bag.xyz"):
                with open(p(n), "w") as fd:
                    fd.write("x")
            os.symlink(p("nowhere at all"), p("dangling"))
        self.specs = {}
        for n in ("plain", "upd", "head", "nobagit"):
            s = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]), name=n)
            s.info = s.info or []
            self.specs[n] = s
            gen.write_bag(s, self.dir, rng)
        make_single_multibag(p("head"), "1")
        self.arch = rng.choice(gen.FORMS)
        self.names = {"nobag": "nobag" + self.arch, "broken": "broken" + self.arch, "cut": "cut" + self.arch}
        with mon.quiet():
            os.remove(p("nobagit", "bagit.txt"))
            os.mkdir(p("x"))
            with open(p("x", "a"), "w") as fd:
                fd.write("not a bag")
            gen.serialize(p("x"), p("nobag"), self.arch, "all", rng)
            shutil.rmtree(p("x"))
            with open(p("broken" + self.arch), "w") as fd:
                fd.write("this is no archive\n" * 3)
            for n in ("head", "plain"):
                gen.serialize(p(n), p(n), self.arch, "all", rng)
            with open(p("plain" + self.arch), "rb") as fd:
                data = fd.read()
            # archives by another name
            self.names["bak"] = "plain%s.%s" % (self.arch, rng.choice(["bak", "part", "1", "txt"]))
            self.names["tilde"] = "plain" + rng.choice([self.arch + "~", self.arch.upper() + "x", self.arch[1:], ".x" + self.arch[1:]])
            for n in ("bak", "tilde"):
                with open(p(self.names[n]), "wb") as fd:
                    fd.write(data)
            with open(p("cut" + self.arch), "wb") as fd:
                # (not much of it)
                fd.write(data[:rng.choice([1, 10, 40, 60])])

    def p(self, *n):
        return os.path.join(self.dir, *n)

    def bad(self):
        n = self.rng.choice(NOT_BAGS)
        return n, self.p(self.names.get(n, n))


def tree(w):
    out = {}
    with mon.quiet():
        for d, ds, fs in os.walk(w.dir):
            for n in ds:
                out[os.path.join(d, n)] = None
            for n in fs:
                q = os.path.join(d, n)
                st = os.lstat(q)
                if os.path.islink(q):
                    out[q] = os.readlink(q)
                else:
                    with open(q, "rb") as fd:
                        out[q] = (fd.read(), st.st_mtime_ns, st.st_mode)
    return out


def refused(ctx, w, what, f, *allowed):
    "the request has to be refused; only what is allowed may be changed"
    before = tree(w)
    try:
        r = f()
    except mon.Escape:
        raise
    except Exception as ex:
        kind = type(ex).__name__
    else:
        ctx.fail("%s: not refused, but gave %r" % (what, r))
    after = tree(w)
    ok = [w.p(a) for a in allowed]
    ch = [p for p in sorted(set(before) | set(after)) if before.get(p, 0) != after.get(p, 0) and
          not any(p == a or p.startswith(a + "/") for a in ok)]
    ctx.check(not ch, "%s: was refused (%s), but %s changed" % (what, kind, [os.path.relpath(p, w.dir) for p in ch[:5]]))
    ctx.count("refused")
    ctx.feature(what, kind)
    return kind


def case(ctx, i):
    rng = ctx.rng
    w = World(ctx, rng)
    f = WAYS[i % len(WAYS)]
    f(ctx, rng, w)


def restoring(ctx, rng, w):
    ctx.count("restores")
    for k in range(4):
        n, p = w.bad()
        if rng.random() < 0.3:
            n, p = rng.choice([("plain", w.p("plain")), ("plain archive", w.p("plain" + w.arch))])
        how = rng.choice(["function", "class", "in place"])
        refused(ctx, w, "restoring %s (%s)" % (n, how), {
            "function": lambda: restore_bag(p, w.p("out", "r")),
            "class": lambda: BagRestorer(p, w.p("out", "r")).restore(),
            "in place": lambda: restore_bag(p)}[how])
    # where nothing can be restored to
    head = w.p("head" + rng.choice(["", w.arch]))
    refused(ctx, w, "restoring to a place that does not exist", lambda: restore_bag(head, w.p("nodir", "r")))
    refused(ctx, w, "restoring to a file's place", lambda: restore_bag(head, w.p("file.txt")))
    refused(ctx, w, "restoring to an empty file's place", lambda: restore_bag(head, w.p("empty file")))
    refused(ctx, w, "restoring below a file", lambda: restore_bag(head, w.p("file.txt", "r")))
    refused(ctx, w, "restoring a serialized bag in place", lambda: restore_bag(w.p("head" + w.arch)))
    ctx.count("destinations", 4)
    right(ctx, w, lambda: restore_bag(head, w.p("out", "r")), w.p("out", "r"))


def right(ctx, w, f, bag):
    "the same thing, with nothing wrong about it"
    f()
    t = oracle.read_tree(bag)
    ctx.equal(oracle.bag_problems(t), [], "problems of the bag when it is done rightly")
    ctx.count("done_rightly")


def no_members(ctx, rng, w):
    "head bags without a list of members"
    head = w.p("head")
    mem = os.path.join(head, "multibag", "member-bags.tsv")
    kind = rng.choice(["gone", "empty", "blank"])
    with mon.quiet():
        os.remove(mem)
        if kind != "gone":
            with open(mem, "w") as fd:
                fd.write("" if kind == "empty" else "\n \n\n")
    form = rng.choice(["", "", w.arch])
    if form:
        with mon.quiet():
            os.remove(w.p("head" + form))
            gen.serialize(head, head, form, "all", rng)
    p = head + form
    refused(ctx, w, "restoring without a list of members (%s)" % kind,
            lambda: BagRestorer(p, w.p("out", "r")).restore())
    ctx.count("no_member_list")
    if kind == "gone":
        b = open_headbag(p, True)
        refused(ctx, w, "the members without a list of members", lambda: b.member_bags())
        refused(ctx, w, "the members without a list of members", lambda: list(b.iter_member_bags()))
        refused(ctx, w, "amending without a list of members", lambda: amend_bag_with(p, w.p("upd"), "2"), "upd")


def amending(ctx, rng, w):
    ctx.count("amendments")
    old = rng.choice(["head", "plain", "head" + w.arch, "plain" + w.arch])
    for k in range(3):
        n, p = w.bad()
        refused(ctx, w, "amending %s" % n, lambda: amend_bag_with(p, w.p("upd"), "2"))
        n, p = w.bad()
        if rng.random() < 0.3:
            n, p = "archive", w.p("plain" + w.arch)
        refused(ctx, w, "amending with %s" % n, lambda: amend_bag_with(w.p(old), p, "2"))
    # with itself
    it = rng.choice(["head", "plain"])
    with mon.quiet():
        os.symlink(w.p(it), w.p("another name"))
        os.symlink(w.dir, w.p("another way"))
    q = rng.choice([w.p("another name"), w.p("another way", it), w.p(it), w.p(it) + "/", w.p("out", "..", it), w.p(it, "."), os.path.relpath(w.p(it))])
    how = rng.choice(["path", "read", "update"])
    am = {"path": lambda: w.p(it), "read": lambda: open_bag(w.p(it)), "update": lambda: Bag(w.p(it))}[how]
    def itself():
        if rng.random() < 0.5:
            amend_bag_with(am(), q, "2")
        else:
            Amender(am(), q).init_from_amendee()
    refused(ctx, w, "amending %s with itself (%s)" % (it, how), itself)
    ctx.count("amended_by_itself")
    n, p = w.bad()
    refused(ctx, w, "adding %s to an amendment" % n, lambda: amend_bag_with(w.p(old), w.p("upd"), "2", p), "upd")
    right(ctx, w, lambda: amend_bag_with(w.p(old), w.p("upd"), "2", w.p("plain")), w.p("upd"))
    t = oracle.read_tree(w.p("upd"))
    ctx.equal([m[0] for m in oracle.members_of(t)], ([old.split(".")[0]] if old.startswith("head") else []) + ["plain", "upd"],
              "members after an amendment that had been refused")


def converting(ctx, rng, w):
    ctx.count("conversions")
    for k in range(4):
        n, p = w.bad()
        if rng.random() < 0.2:
            n, p = "archive", w.p("plain" + w.arch)
        refused(ctx, w, "converting %s" % n, rng.choice([
            lambda: make_single_multibag(p, "1"), lambda: SingleMultibagMaker(p).convert("1")]))
    right(ctx, w, lambda: make_single_multibag(w.p("plain"), "1"), w.p("plain"))


def splitting(ctx, rng, w):
    ctx.count("splits")
    cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
    for k in range(4):
        n, p = w.bad()
        if rng.random() < 0.2:
            n, p = "archive", w.p("plain" + w.arch)
        refused(ctx, w, "splitting %s" % n, lambda: cls(rng.choice([10, 1000])).split(p, w.p("out")))
    for d in ("nodir", "file.txt", "nodir/deep"):
        refused(ctx, w, "splitting to %s" % d, lambda: cls(100).split(w.p("plain"), w.p(d)))
        ctx.count("destinations")
    # an output bag's place is taken
    names = [m["name"] for m in cls(100).plan(w.p("plain")).manifests()]
    k = rng.randrange(len(names))
    with mon.quiet():
        q = w.p("out", names[k])
        if rng.random() < 0.6:
            os.mkdir(q)
            if rng.random() < 0.6:
                with open(q + "/something", "w") as fd:
                    fd.write("of value")
        else:
            with open(q, "w") as fd:
                fd.write("of value")
    refused(ctx, w, "splitting over what is there",
            lambda: cls(100).split(w.p("plain"), w.p("out")), *["out/" + n for n in names[:k]])
    with mon.quiet():
        shutil.rmtree(w.p("out"))
        os.mkdir(w.p("out"))
    right(ctx, w, lambda: cls(100).split(w.p("plain"), w.p("out")), w.p("out", names[-1]))


def opening(ctx, rng, w):
    fs = {"open_bag": open_bag, "open_headbag": open_headbag, "open_headbag r/o": lambda p: open_headbag(p, True),
          "HeadBag": HeadBag, "ReadOnlyBag": ReadOnlyBag, "ExtendedReadOnlyBag": ExtendedReadOnlyBag, "Bag": Bag,
          "is_headbag": is_headbag, "HeadBagValidator": lambda p: HeadBagValidator(p).is_valid(),
          "MemberBagValidator": lambda p: MemberBagValidator(p).is_valid(),
          "BagValidator": lambda p: BagValidator(p).is_valid(), "SplitPlan": SplitPlan}
    for k in range(8):
        f = rng.choice(sorted(fs))
        n, p = w.bad()
        if rng.random() < 0.1:
            n, p = "nothing", ""
        if f in ("HeadBag", "ReadOnlyBag", "ExtendedReadOnlyBag", "Bag") and rng.random() < 0.3:
            n, p = "archive", w.p("plain" + w.arch)
        if f == "Bag" and n == "nothing":
            continue
        refused(ctx, w, "%s of %s" % (f, n), lambda: fs[f](p))
        ctx.count("opened")
    for f in (as_extended, as_headbag):
        x = rng.choice([3, None, "x", w.p("plain"), b"x", [], {}, object(), MemberInfo("x")])
        refused(ctx, w, "%s of a %s" % (f.__name__, type(x).__name__), lambda: f(x))
    b = as_extended(rng.choice([open_bag(w.p("plain")), Bag(w.p("plain")), open_bag(w.p("plain" + w.arch))]))
    for p in ("data/not there", "nope", "bagit.txt/x"):
        for m in ("sizeof", "timesfor"):
            refused(ctx, w, "%s of what is not there" % m, lambda: getattr(b, m)(p))
        refused(ctx, w, "replicating what is not there", lambda: b.replicate(p, w.p("out")))
        refused(ctx, w, "opening what is not there", lambda: b.open_text_file(p))
        refused(ctx, w, "walking what is not there", lambda: list(b.walk(p)))
    refused(ctx, w, "walking from an absolute path", lambda: list(b.walk("/data")))
    refused(ctx, w, "walking a file", lambda: list(b.walk("bagit.txt")))


def editing(ctx, rng, w):
    hb = HeadBag(w.p("head"))

    def state():
        return ([m.format() for m in hb.member_bags()], sorted(hb.deleted_paths()), hb.multibag_tag_dir,
                {p: hb.lookup_file(p) for p in w.specs["head"].files})
    st = state()
    reqs = [
        ("add_file_lookup", lambda: hb.add_file_lookup(*rng.choice([("", "x"), ("data/x", ""), ("", ""), (None, "x"),
                                                                      ("x", None), (3, "x"), ("x", 3), ("x", b"y")]))),
        ("remove_file_lookup", lambda: hb.remove_file_lookup(rng.choice(["", None]))),
        ("set_member_bags", lambda: hb.set_member_bags(rng.choice(["abc", ["x"], [3], [MemberInfo("a"), "b"], [None]]))),
        ("update_for_member", lambda: hb.update_for_member(open_bag(w.p("plain")), rng.choice([3, {"data": 1}, ("data",)]),
                                                           make_member=False)),
        ("update_for_member", lambda: hb.update_for_member(open_bag(w.p("plain")), None, rng.choice([3, {"data": 1}]),
                                                           make_member=False)),
        ("migrating to a directory that is there", lambda: hb.set_multibag_tag_dir("data", True)),
        ("migrating to a file's place", lambda: hb.set_multibag_tag_dir("bagit.txt", True)),
    ]
    for k in range(6):
        what, f = rng.choice(reqs)
        refused(ctx, w, what, f)
        ctx.equal(state(), st, "the head bag after %s was refused" % what)
        ctx.count("edits")
    hb.save_member_bags()
    hb.save_file_lookup()
    right(ctx, w, hb.save, w.p("head"))


def damaged(ctx, rng, w):
    "multibag files that cannot be understood"
    lu = w.p("head", "multibag", "file-lookup.tsv")
    form = rng.choice(["", w.arch])
    with mon.quiet():
        good = open(lu, encoding="utf-8", newline="\n").read().split("\n")[:-1]
        k = rng.randrange(len(good) + 1)
        line = rng.choice(["data/without a bag", "data/x\t", "x"])
        os.remove(lu)
        with open(lu, "w", encoding="utf-8", newline="\n") as fd:
            fd.write("\n".join(good[:k] + [line] + good[k:]) + "\n")
        if form:
            os.remove(w.p("head" + form))
            gen.serialize(w.p("head"), w.p("head"), form, "all", rng)
    p = w.p("head" + form)
    b = open_headbag(p, rng.random() < 0.5)
    refused(ctx, w, "listing a malformed lookup", lambda: list(b.iter_file_lookup()))
    refused(ctx, w, "amending with a malformed lookup", lambda: amend_bag_with(p, w.p("upd"), "2"), "upd")
    ctx.check(not HeadBagValidator(p).is_valid(), "a head bag with a malformed lookup is valid")
    ctx.count("damaged_lists")


WAYS = [restoring, amending, no_members, converting, splitting, opening, editing, damaged]
