"""
P11: edits of a head bag's metadata behave like an editable list that is saved on request
"""
import os
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P11"
LEVEL = "exploration"
RULE = ("random programs of up to 40 edits, saves, re-opens and queries run on a head bag and on "
        "a model of it; after every step the views must agree, after every save the files; "
        "distinct by (kind of step, state before: loaded/unsaved/saved) pairs of steps")
ASSUMPTIONS = ["re-reading a tag file that does not exist is not used",
               "a single object edits the bag at a time"]
N = {"quick": 1000, "thorough": 6000}
REQUIRED = ["steps", "saves", "reopens", "migrations", "file_checks", "foreign_bags"]

BAGS = ["one", "two bags", "thr\u00e9e", "4#", "five.mbag", "b 6"]
PATHS = ["data/a", "data/b c", "data/sub/x#1", "data/sub/\u00e9", "meta/t.txt", "data/%20", "data/sub/y",
         "#data", "# x/y", "data/./q", "data//r", "DATA/a"]
ALIKE = [" data/a", "data/a ", "/data/a", "data", "data/", "data/a/", "data/sub", "./data/a", "data/q", "data/r", "Data/A",
         "data/ ", "a"]
URIS = [None, None, "doi:1/2", "https://x.org/a b?q#f"]
COMM = [None, None, "hello", "tab\there", "x # y", "in C#", "two ##"]
INFO = [[], [], ["i1"], ["#5", "z"], ["i1", "two words", "3"]]


class Model(object):
    def __init__(self):
        self.mem, self.lu, self.dl = [], {}, set()
        self.dmem, self.dlu, self.ddl = [], {}, set()
        self.fmem = self.flu = self.fdl = False     # the files exist

    def load(self):
        self.mem, self.lu, self.dl = list(self.dmem), dict(self.dlu), set(self.ddl)

    def drop_member(self, n):
        self.mem = [m for m in self.mem if m[0] != n]
        for p in [p for p in self.lu if self.lu[p] == n]:
            del self.lu[p]
            self.dl.discard(p)


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng, nfiles=3, hostile=0)
    bag = gen.write_bag(spec, ctx.path(), rng)
    other = gen.random_spec(rng, nfiles=rng.choice([1, 3, 5]), name=rng.choice(["oth er", "ozip"]))
    opath = gen.write_bag(other, ctx.path("."), rng) if False else None
    with mon.quiet():
        os.mkdir(ctx.path("o"))
    opath = gen.write_bag(other, ctx.path("o"), rng)
    if rng.random() < 0.5:
        opath = gen.serialize(opath, opath, rng.choice(gen.FORMS), "all", rng)
    m = Model()
    if rng.random() < 0.5:
        make_single_multibag(bag, "1")
        m.dmem = [(spec.name, None, (), None)]
        m.dlu = {p: spec.name for p in spec.payload()}
        m.fmem = m.flu = True
        m.load()
    hb = HeadBag(bag)
    td = "multibag"
    log = []
    prev = "open"
    mine = []
    for step in range(rng.randrange(5, 40)):
        op = rng.choice(OPS)
        name, path = rng.choice(BAGS + [spec.name]), rng.choice(PATHS)
        if op in ("lu-", "del-", "remove") and rng.random() < 0.5:
            # one that is there
            if op == "remove":
                name = rng.choice([x[0] for x in m.mem] or [name])
            else:
                path = rng.choice(sorted(m.lu if op == "lu-" else m.dl) or [path])
        state = "%d%d%d" % (m.mem != m.dmem, m.lu != m.dlu, m.dl != m.ddl)
        log.append(op)
        ctx.count("steps")
        if op == "add":
            mi = (name, rng.choice(URIS), tuple(rng.choice(INFO)), rng.choice(COMM))
            ov = rng.random() < 0.85
            hb.add_member_bag(mi[0], mi[1], mi[3], list(mi[2]) or rng.choice([None, []]), ov) \
                if not ov or rng.random() < 0.5 else \
                hb.add_member_bag(mi[0], uri=mi[1], comment=mi[3], info=list(mi[2]))
            if ov:
                m.drop_member(name)
            m.mem.append(mi)
        elif op == "set":
            new = [(n, rng.choice(URIS), tuple(rng.choice(INFO)), rng.choice(COMM))
                   for n in rng.sample(BAGS, rng.choice([0, 1, 2, 3]))]
            given = [MemberInfo(a, b, d, *c) for a, b, c, d in new]
            mine.append((given, list(given)))
            hb.set_member_bags(given if rng.random() < 0.7 else iter(given))
            m.mem = new
        elif op == "remove":
            hb.remove_member_bag(name)
            m.drop_member(name)
        elif op == "lu+":
            hb.add_file_lookup(path, name)
            m.lu[path] = name
        elif op == "lu-":
            hb.remove_file_lookup(path)
            m.lu.pop(path, None)
        elif op == "luclear":
            hb.clear_file_lookup()
            m.lu, m.dlu, m.flu = {}, {}, False
        elif op == "del+":
            hb.set_deleted(path)
            m.dl.add(path)
        elif op == "delnone":
            for p in sorted(m.dl):
                hb.unset_deleted(p)
            m.dl = set()
        elif op == "lunone":
            for p in sorted(m.lu):
                hb.remove_file_lookup(p)
            m.lu = {}
        elif op == "del-":
            hb.unset_deleted(path)
            m.dl.discard(path)
        elif op == "savem":
            hb.save_member_bags()
            m.dmem = list(m.mem)
            m.fmem = os.path.exists(os.path.join(bag, td, "member-bags.tsv"))
            ctx.count("saves")
        elif op == "savel":
            hb.save_file_lookup()
            m.dlu = dict(m.lu)
            m.flu = os.path.exists(os.path.join(bag, td, "file-lookup.tsv"))
            ctx.count("saves")
        elif op == "saved":
            hb.save_deleted()
            m.ddl = set(m.dl)
            m.fdl = os.path.exists(os.path.join(bag, td, "deleted.txt"))
            ctx.count("saves")
        elif op == "reopen":
            hb = HeadBag(bag) if rng.random() < 0.7 else open_headbag(bag)
            m.load()
            ctx.count("reopens")
        elif op == "rereadm" and m.fmem:
            hb.member_bags(True)
            m.mem = list(m.dmem)
        elif op == "rereadl" and m.flu:
            hb.lookup_file("data/a", True)
            m.lu = dict(m.dlu)
        elif op == "rereadd" and m.fdl:
            hb.deleted_paths(True)
            m.dl = set(m.ddl)
        elif op == "info":
            hb.update_info(rng.choice(["2", "3.0", None]))
        elif op == "member":
            b = open_bag(opath)
            mk = rng.random() < 0.6
            mn = rng.choice([None, None, "as another"])
            hb.update_for_member(b, make_member=mk, member_name=mn)
            n = mn or other.name
            if mk:
                m.drop_member(n)
                m.mem.append((n, None, (), None))
            for p in other.payload():
                m.lu[p] = n
            ctx.count("foreign_bags")
        elif op == "tagdir":
            new = rng.choice(["multibag", "mb2", "deep/er/mb", "mb", "er/mb", "bag", "multibag2", "Multibag", "MB"])
            if new != td:
                hb.set_multibag_tag_dir(new, True)
                hb.save()
                ctx.check(not os.path.exists(os.path.join(bag, td)), "the tag directory was not moved")
                td = new
                ctx.count("migrations")
        elif op == "badmig":
            # a tag directory cannot be moved over something that exists
            with mon.quiet():
                os.makedirs(os.path.join(bag, "taken"), exist_ok=True)
            try:
                hb.set_multibag_tag_dir("taken", True)
                ctx.fail("the tag directory was moved over an existing one")
            except RuntimeError:
                pass
            ctx.equal(hb.multibag_tag_dir, td, "tag directory after a failed migration")
        ctx.feature(prev, op, state)
        prev = op
        if rng.random() < 0.5:
            agree(ctx, hb, m, log)
        if op.startswith("save") or op in ("tagdir", "info"):
            files(ctx, bag, td, m, log)
    agree(ctx, hb, m, log)
    files(ctx, bag, td, m, log)
    for given, was in mine:
        ctx.check(given == was, "the list given to set_member_bags() was changed by later edits (%s)" % log)
    if rng.random() < 0.5:
        m.load()
        agree(ctx, HeadBag(bag), m, log)
    ctx.sample({"program": log})


OPS = ["add", "add", "set", "remove", "remove", "lu+", "lu+", "lu-", "luclear", "del+", "del+", "del-",
       "delnone", "lunone",
       "savem", "savem", "savel", "savel", "saved", "saved", "reopen", "reopen", "rereadm",
       "rereadl", "rereadd", "info", "member", "tagdir", "badmig"]


def agree(ctx, hb, m, log):
    which = ctx.rng.sample(["mem", "names", "lu", "files", "dl"], ctx.rng.choice([1, 2, 5]))
    if "mem" in which:
        ctx.equal([(x.name, x.uri, tuple(x.info), x.comment) for x in hb.member_bags()], m.mem,
                  "member_bags() after %s" % log)
    if "names" in which:
        ctx.equal(hb.member_bag_names, [x[0] for x in m.mem], "member_bag_names after %s" % log)
    if "lu" in which:
        for p in PATHS + list(m.lu) + ALIKE:
            ctx.equal(hb.lookup_file(p), m.lu.get(p), "lookup_file(%r) after %s" % (p, log))
    if "files" in which:
        for n in BAGS:
            ctx.equal(sorted(hb.files_in_member(n)), sorted(p for p in m.lu if m.lu[p] == n),
                      "files_in_member(%r) after %s" % (n, log))
    if "dl" in which:
        got = hb.deleted_paths()
        ctx.equal(sorted(got), sorted(m.dl), "deleted_paths() after %s" % log)
        # (it is the caller's list)
        got.append("data/not deleted")
        ctx.equal(sorted(hb.deleted_paths()), sorted(m.dl), "deleted_paths() after its result was changed")


def files(ctx, bag, td, m, log):
    ctx.count("file_checks")
    t = oracle.Tree()
    with mon.quiet():
        d = os.path.join(bag, td)
        for f in (os.listdir(d) if os.path.isdir(d) else []):
            with open(os.path.join(d, f), "rb") as fd:
                t.files[f] = fd.read()
    got = oracle.parse_members(t.files.get("member-bags.tsv", b""))
    ctx.equal([(a, b, tuple(c), d) for a, b, c, d in got], m.dmem, "member-bags.tsv after %s" % log)
    ctx.equal(dict(oracle.parse_lookup(t.files.get("file-lookup.tsv", b""))), m.dlu,
              "file-lookup.tsv after %s" % log)
    got = oracle.parse_deleted(t.files.get("deleted.txt", b""))
    ctx.equal(sorted(got), sorted(m.ddl), "deleted.txt after %s" % log)
