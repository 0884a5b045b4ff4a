"""
P26: aggregations of the older profile versions are read and validated correctly
"""
import os, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from multibag import HeadBagValidator
from multibag.validate import ERROR, WARN, REC, ALL, PROB

ID = "P26"
LEVEL = "exploration"
RULE = ("random aggregations whose head bag declares profile version 0.2 (group-members.txt and "
        "group-directory.txt, separated by spaces), 0.3, 0.4 or a later one, written without the "
        "library, also with misleading files of the other version beside; read through all views, "
        "validated (also after breaking a rule), amended and restored; distinct by (version, form, "
        "broken rule, what is done)")
ASSUMPTIONS = ["names in a version 0.2 head bag have no white space"]
N = {"quick": 1000, "thorough": 5000}
REQUIRED = ["kept_profile_version", "views_compared", "validated", "broken", "amended", "restored", "serialized",
            "version_0.2", "version_0.3", "later_version", "decoys"]

RULES = {
    # rule -> severity
    "extra field": ERROR, "relative url": ERROR, "not listed": ERROR, "not last": ERROR,
    "twice": WARN, "no members": ERROR, "no lookup": ERROR, "lookup extra": ERROR,
    "lookup short": ERROR, "lookup wrong": ERROR, "lookup twice": WARN, "lookup less": REC,
}


def spaceless(p):
    return not any(c.isspace() for c in p)


class Agg(object):
    def __init__(self, ctx, rng):
        self.rng = rng
        self.version = rng.choice(["0.2", "0.2", "0.2", "0.3", "0.4", "0.10", "1.0"])
        self.old = self.version == "0.2"
        self.store = ctx.path("store")
        os.mkdir(self.store)
        nm = gen.Namer(rng, rng.choice([0.0, 0.5, 0.9]))
        nm.add_dir("multibag")
        nm.add_dir("mb")
        comp = nm.comp
        nm.comp = lambda: next(c for c in iter(comp, None) if spaceless(c))
        names = [n for n in gen.BAGNAMES + ["one", "two", "three", "v1"] if spaceless(n)]
        names = rng.sample(names, rng.choice([1, 2, 3]))
        while any(a != b and b.startswith(a + ".") for a in names for b in names):
            names = [n + "b%d" % k for k, n in enumerate(names)]
        self.names = names
        self.specs, known = [], []
        for n in names:
            s = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]), name=n, nm=nm, info=True,
                                reuse=rng.sample(known, min(len(known), rng.choice([0, 1, 2]))))
            s.files = {p: d for p, d in s.files.items() if spaceless(p)}
            s.empty = []
            s.info = [x for x in (s.info or []) if x[0] != "Bag-Count"]
            known += [p for p in s.files if p not in known]
            self.specs.append(s)
        self.head = self.specs[-1]
        self.dir = rng.choice(["multibag", "multibag", "mb"])
        self.members = [[n] + ([rng.choice(["http://x.org/a", "doi:10.1/x", "urn:x:y"])]
                               if rng.random() < 0.5 else []) for n in names]
        self.lookup = []
        self.want = {}
        for s in self.specs:
            for p in s.payload():
                self.want[p] = s.name
        self.lookup = [[p, b] for p, b in self.want.items()]
        rng.shuffle(self.lookup)
        self.files = {}
        self.deleted = []
        if not self.old and rng.random() < 0.3 and known:
            self.deleted = [rng.choice(known)]

    def text(self, rows):
        r = self.rng
        out = ""
        for row in rows:
            if self.old:
                out += r.choice([" ", "  ", "    "]).join(row) + "\n"
            else:
                out += "\t".join(row) + "\n"
            if r.random() < 0.1:
                out += "\n"
        return out.encode("utf-8")

    def write(self, ctx, broken=None):
        r = self.rng
        mf, lf = ("group-members.txt", "group-directory.txt") if self.old else \
                 ("member-bags.tsv", "file-lookup.tsv")
        files = {mf: self.text(self.members), lf: self.text(self.lookup)}
        if broken == "no members":
            del files[mf]
        if broken == "no lookup":
            del files[lf]
        if broken is None and r.random() < 0.3:
            # files of the other version must not be looked at
            o = ("member-bags.tsv", "file-lookup.tsv") if self.old else \
                ("group-members.txt", "group-directory.txt")
            files[o[0]] = b"decoy\nanother\n"
            files[o[1]] = "".join("%s%sdecoy\n" % (p, "\t" if self.old else " ")
                                  for p, b in self.lookup).encode("utf-8")
            ctx.count("decoys")
        if self.deleted:
            files["deleted.txt"] = ("\n".join(self.deleted) + "\n").encode("utf-8")
        files["about.txt"] = b"x"
        self.head.extra_raw = {self.dir + "/" + k: v for k, v in files.items()}
        have = set(n for n, v in self.head.info)
        self.head.info = [x for x in self.head.info if not x[0].startswith("Multibag-")] + \
            [("Multibag-Version", self.version), ("Multibag-Head-Version", "3"),
             ("Multibag-Reference", "http://x.org/spec")] + \
            ([("Multibag-Tag-Directory", self.dir)] if self.dir != "multibag" else []) + \
            [(n, "v") for n in ("Internal-Sender-Identifier", "Internal-Sender-Description",
                                "Bag-Group-Identifier") if n not in have]
        self.paths, self.trees = {}, {}
        for s in self.specs:
            p = gen.write_bag(s, self.store, r)
            self.trees[s.name] = oracle.read_tree(p)
            if r.random() < 0.35:
                a = gen.serialize(p, p, r.choice(gen.FORMS), "all", r)
                with mon.quiet():
                    shutil.rmtree(p)
                p = a
                ctx.count("serialized")
            self.paths[s.name] = p


def case(ctx, i):
    rng = ctx.rng
    a = Agg(ctx, rng)
    ctx.count("version_0.2" if a.old else "version_0.3" if a.version == "0.3" else "later_version")
    broken = rng.choice(sorted(RULES)) if rng.random() < 0.4 else None
    if broken and not apply(a, broken, rng):
        broken = None
    ctx.note([a.version, broken, a.members, a.lookup])
    a.write(ctx, broken)
    head = a.paths[a.names[-1]]
    form = os.path.splitext(head)[1] if os.path.isfile(head) else "dir"
    if not broken:
        views(ctx, a, head)
    # validation
    res = HeadBagValidator(head).validate(ALL)
    sev = set(t.type for t in res.failed())
    ctx.count("validated")
    if broken:
        ctx.count("broken")
        ctx.equal(sev, {RULES[broken]}, "version %s head bag with %r: severities of the failed tests %s" %
                  (a.version, broken, [t.description for t in res.failed()][:3]))
    else:
        ctx.equal(sev, set(), "version %s: a compliant head bag fails %s" %
                  (a.version, [t.description for t in res.failed()][:3]))
    what = "validate"
    if not broken:
        what = rng.choice(["amend", "restore", "both"])
        if what != "amend":
            restore(ctx, a, head, a.names, a.deleted, "dest1")
        if what != "restore":
            amend(ctx, a, head)
    ctx.feature(a.version, form, broken, what, a.dir)
    ctx.sample({"version": a.version, "members": a.members, "broken": broken, "form": form, "then": what})


def apply(a, broken, rng):
    me = a.names[-1]
    if broken == "extra field":
        if not a.old:
            return False
        a.members[0] = [a.members[0][0], "http://x.org/a", "more"]
    elif broken == "relative url":
        a.members[rng.randrange(len(a.members))][1:] = ["a/b"]
    elif broken == "not listed":
        a.members[-1] = ["zzz" if "zzz" not in a.names else "yyy"]
    elif broken == "not last":
        a.members.append(["zz"])
    elif broken == "twice":
        a.members.insert(0, list(a.members[-1]))
    elif broken in ("lookup extra",):
        a.lookup[0] = a.lookup[0] + ["more"]
        if not a.lookup:
            return False
    elif broken == "lookup short":
        a.lookup.append(["data/nothing/there"])
    elif broken == "lookup wrong":
        a.lookup.append(["data/nothing/there", me])
    elif broken == "lookup twice":
        x = rng.choice(a.lookup)
        a.lookup.append(list(x))
    elif broken == "lookup less":
        mine = [x for x in a.lookup if x[1] == me and
                not x[0].split("/")[-1].startswith((".", "_"))]
        if not mine:
            return False
        a.lookup.remove(rng.choice(mine))
    return True


def views(ctx, a, head):
    opens = [lambda: open_headbag(head), lambda: open_headbag(head, True),
             lambda: as_headbag(open_bag(head))]
    if os.path.isdir(head):
        opens += [lambda: HeadBag(head), lambda: as_headbag(Bag(head))]
    for k, f in enumerate(opens):
        b = f()
        w = "version %s, view %d: " % (a.version, k)
        ctx.equal(b.profile_version, a.version, w + "profile_version")
        ctx.equal(b.head_version, "3", w + "head_version")
        ctx.equal(b.member_bag_names, a.names, w + "member_bag_names")
        ctx.equal([(m.name, m.uri, m.comment, m.info) for m in b.member_bags()],
                  [(m[0], (m + [None])[1], None, []) for m in a.members], w + "member_bags()")
        ctx.equal([m.name for m in b.iter_member_bags()], a.names, w + "iter_member_bags()")
        ctx.equal(list(b.iter_file_lookup()), [tuple(x) for x in a.lookup], w + "iter_file_lookup()")
        for p, n in a.want.items():
            ctx.equal(b.lookup_file(p), n, w + "lookup_file(%r)" % p)
        for n in a.names:
            ctx.equal(sorted(b.files_in_member(n)), sorted(p for p in a.want if a.want[p] == n),
                      w + "files_in_member(%r)" % n)
        ctx.check(b.lookup_file("data/no such file") is None, w + "found a file that is not listed")
        ctx.equal(sorted(b.deleted_paths()), sorted(a.deleted), w + "deleted_paths()")
        ctx.count("views_compared")


def restore(ctx, a, head, names, deleted, where):
    dest = ctx.path(where)
    restore_bag(head, dest, a.store)
    files, dirs = hist.model([a.trees[n] for n in names], deleted,
                             oracle.tagdir_of(a.trees[names[-1]]))
    got = oracle.read_tree(dest)
    drop = [d + "/" for d in ("multibag", "mb")]
    have = {p: d for p, d in ops.content_files(got).items() if not p.startswith(tuple(drop))}
    ctx.equal(have, {p: x[0] for p, x in files.items() if not p.startswith(tuple(drop))},
              "the restored version %s aggregation" % a.version)
    ops.check_clean_bag(ctx, got, "the restored bag")
    ctx.count("restored")


def amend(ctx, a, head):
    rng = ctx.rng
    known = [p for p in a.want if p not in a.deleted]
    s = gen.random_spec(rng, nfiles=1, name="newhead", reuse=rng.sample(known, min(1, len(known))),
                        tags=False, empties=False, hostile=0.0)
    s.files = {p: d for p, d in s.files.items() if p in known or "/u" not in p}
    s.files = {p: d for p, d in s.files.items()
               if not any(q.startswith(p + "/") or p.startswith(q + "/") for t in a.trees.values()
                          for q in t.files)}
    s.info = [("Contact-Name", "x")]
    new = gen.write_bag(s, a.store, rng)
    keep = not a.old and rng.random() < 0.4
    if keep:
        am = Amender(head, new)
        am.init_from_amendee(keepprofver=True)
        am.finalize("4")
        ctx.count("kept_profile_version")
    elif rng.random() < 0.3:
        am = Amender(head, new)
        am.init_from_amendee(False)
        am.finalize("4")
    else:
        amend_bag_with(head, new, "4")
    t = oracle.read_tree(new)
    probs = oracle.profile_problems(t)
    ctx.check(not probs, "the new head bag breaks the profile: %s" % probs[:3])
    ctx.equal(oracle.info_of(t)["Multibag-Version"], [a.version if keep else "0.4"], "profile version after the amendment")
    ctx.equal([x[:2] for x in map(list, oracle.parse_members(t.files["multibag/member-bags.tsv"]))],
              [[m[0], (m + [None])[1]] for m in a.members] + [["newhead", None]],
              "members after amending a version %s head bag" % a.version)
    lu = dict(a.want)
    for p in s.payload():
        lu[p] = "newhead"
    got = oracle.parse_lookup(t.files["multibag/file-lookup.tsv"])
    ctx.equal(dict(got), lu, "lookup after amending a version %s head bag" % a.version)
    a.trees["newhead"] = t
    dels = [p for p in a.deleted if p not in s.files]
    restore(ctx, a, new, a.names + ["newhead"], dels, "dest2")
    ctx.count("amended")
