"""
P15: head and member bag validation reports exactly the broken rules of the profile
"""
import os, re
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag import (HeadBagValidator, MemberBagValidator, validate_headbag, validate_memberbag,
                      MultibagValidationError)
from multibag.validate import ERROR, WARN, REC, ALL, PROB
from multibag.validate.base import ValidationResults

ID = "P15"
LEVEL = "exploration"
RULE = ("random compliant head and member bags, written without the library, are broken in zero, "
        "one or more ways taken from a table of the profile's rules and validated as directories "
        "and serialized; the severities of the failed tests must be those of the broken rules; "
        "distinct by (rules broken, form, way of validating)")
ASSUMPTIONS = ["the severity of a rule is taken from the wording of the profile (MUST: error) or, where "
               "it says less, from the validators' documented intent",
               "rules about a tag file are not combined with the absence of the file"]
N = {"quick": 1600, "thorough": 8000}
REQUIRED = ["compliant_heads", "compliant_members", "broken_heads", "broken_members", "combinations",
            "serialized", "lines_reported", "more_than_four_lines", "by_parts"]

E, W, R = ERROR, WARN, REC


class Head(object):
    "a head bag in the making"
    def __init__(self, rng):
        nm = gen.Namer(rng, rng.choice([0, 0.3, 0.8]))
        nm.add_dir("meta/mb")
        s = gen.random_spec(rng, nfiles=rng.choice([1, 2, 3, 5]), info=False, nm=nm)
        self.rng, self.s = rng, s
        s.oxum = True
        self.name = s.name
        self.dir = rng.choice(["multibag", "multibag", "multibag", "mb tags", "meta/mb"])
        self.version = rng.choice(["0.3", "0.4", "0.4"])
        self.headver = rng.choice(["1", "2.0", "2018-01, x".split(",")[0]])
        info = [("Multibag-Version", self.version),
                ("Multibag-Reference", rng.choice(
                    ["https://github.com/usnistgov/multibag-py/blob/master/docs/multibag-profile-spec.md",
                     "http://x.org/", "http://x.org/a#b"])),
                ("Multibag-Head-Version", self.headver)]
        if self.dir != "multibag" or rng.random() < 0.3:
            info.append(("Multibag-Tag-Directory", self.dir))
        for n in ("Internal-Sender-Identifier", "Internal-Sender-Description",
                  "Bag-Group-Identifier"):
            for k in range(rng.choice([1, 1, 1, 2])):
                info.append((n, rng.choice(["v", "a b c", "0", "\u00e9"])))
        for k in range(rng.choice([0, 0, 1, 2])):
            info.append(("Multibag-Head-Deprecates",
                         rng.choice(["0.9", "0.8, oldbag", "0.7,other", "x y, old bag"])))
        info.append(("Contact-Name", "x"))
        rng.shuffle(info)
        self.info = info
        others = rng.sample(["one", "two bags", "thr\u00e9e", "f#ur"], rng.choice([0, 1, 2, 3]))
        self.members = [[o] for o in others] + [[self.name]]
        for m in self.members:
            r = rng.random()
            if r < 0.4:
                m.append(rng.choice(["http://x.org/a b.zip", "doi:10.1/x", "ark:/1/2", "urn:x:y"]))
            if r < 0.2:
                m += ["info", "more info"]
            if r > 0.8:
                m += ["", "# a comment"]
            elif r < 0.1:
                m.append("# com\tment")
        self.lookup = [[p, self.name] for p in sorted(s.payload())]
        if rng.random() < 0.5:
            self.lookup += [[p, self.name] for p in s.files if p not in s.payload()]
        for o in others:
            self.lookup.append(["data/only in " + o, o])
        rng.shuffle(self.lookup)
        self.agg = None
        if rng.random() < 0.4 and self.version != "0.3":
            self.agg = "Contact-Name: X\nLong: folded\n  value\n"
        self.deleted = None
        if rng.random() < 0.3:
            self.deleted = "data/gone\ndata/else\n"
        self.nodir = self.nomem = self.nolu = False
        self.badhash = False

    def many(self):
        return self.rng.choice([1, 1, 2, 3, 4, 5, 6, 9])

    def bad_lines(self):
        "the lines that break each of the rules about lines, by (file, rule)"
        out = {}
        for f in ("member-bags.tsv", "file-lookup.tsv"):
            seen = set()
            for n, line in enumerate(self.raw.get(f, "").splitlines(), 1):
                if not line.strip():
                    continue
                row = line.split("\t")
                if row[0] in seen:
                    out.setdefault((f, "repeated"), []).append(n)
                seen.add(row[0])
                if f[0] == "m":
                    if len(row) > 1 and row[1] and not re.match(r"[a-z]+:", row[1]):
                        out.setdefault((f, "url"), []).append(n)
                else:
                    if len(row) != 2:
                        out.setdefault((f, "format"), []).append(n)
                    elif row[1] == self.name and row[0] not in self.s.files:
                        out.setdefault((f, "missing"), []).append(n)
        return out

    def set(self, name, *values):
        self.info = [x for x in self.info if x[0] != name] + [(name, v) for v in values]

    def write(self, parent):
        s = self.s
        s.info = self.info
        raw = {}
        if not self.nodir:
            if not self.nomem:
                raw["member-bags.tsv"] = "".join("\t".join(m) + "\n" for m in self.members)
            if not self.nolu:
                raw["file-lookup.tsv"] = "".join("\t".join(m) + "\n" for m in self.lookup)
            for f in ("member-bags.tsv", "file-lookup.tsv"):
                if f in raw and self.rng.random() < 0.3:
                    # blank lines do not matter (but are counted)
                    lines = raw[f].splitlines(True)
                    for k in range(self.rng.choice([1, 2])):
                        lines.insert(self.rng.randrange(len(lines) + 1), self.rng.choice(["\n", "  \n"]))
                    raw[f] = "".join(lines)
            self.raw = raw
            if self.agg is not None:
                raw["aggregation-info.txt"] = self.agg
            if self.deleted is not None:
                raw["deleted.txt"] = self.deleted
            raw["about.txt"] = "x"
        s.extra_raw = {self.dir + "/" + k: v.encode("utf-8") for k, v in raw.items()}
        bag = gen.write_bag(s, parent, self.rng)
        if self.badhash:
            with mon.quiet():
                with open(os.path.join(bag, "data", "_zz not listed"), "w") as fd:
                    fd.write("x")
        return bag


# name -> (what it breaks (group), severities, function)
def rule(sev, group):
    def deco(f):
        RULES[f.__name__] = (sev, group, f)
        return f
    return deco
RULES = {}

@rule({E}, "version")
def no_version(h): h.set("Multibag-Version")
@rule({E}, "version")
def empty_version(h): h.set("Multibag-Version", "")
@rule({W}, "version")
def two_versions(h): h.set("Multibag-Version", h.version, h.version)
@rule({R}, "reference")
def no_reference(h): h.set("Multibag-Reference")
@rule({E}, "reference")
def relative_reference(h): h.set("Multibag-Reference", *h.rng.choice([[], [], ["http://x.org/first"]]) + [h.rng.choice(["docs/spec.md", "/docs/spec.md", "spec", "//example.org/spec.md", "http:/spec.md", "http:spec.md"])])
@rule({E}, "tagdir")
def empty_tagdir(h):
    if h.dir != "multibag":
        return False
    h.set("Multibag-Tag-Directory", "")
@rule({E}, "tagdir")
def two_tagdirs(h): h.set("Multibag-Tag-Directory", "multibag" if h.dir != "multibag" else "other", h.dir)
@rule({E}, "dir")
def other_tagdir(h): h.set("Multibag-Tag-Directory", "no such dir")
@rule({E}, "dir")
def no_tagdir(h): h.nodir = True
@rule({E}, "headver")
def no_head_version(h): h.set("Multibag-Head-Version")
@rule({W}, "headver")
def empty_head_version(h): h.set("Multibag-Head-Version", "")
@rule({W}, "headver")
def two_head_versions(h): h.set("Multibag-Head-Version", h.rng.choice(["0.01", h.headver]), h.headver)
@rule({E}, "deprecates")
def long_deprecates(h): h.set("Multibag-Head-Deprecates", *h.rng.choice([["1.1, a, b"], ["0.1", "1.1, a, b"], ["0.1, a,"], ["0.1,,"], ["0.1,b,c", "0.2"]]))
@rule({W}, "deprecates")
def empty_deprecates(h): h.set("Multibag-Head-Deprecates", "")
@rule({W}, "deprecates")
def self_deprecates(h): h.set("Multibag-Head-Deprecates", *h.rng.choice(
    [[h.headver], ["0.1, x", h.headver], [h.headver + ", other"]] +
    # (a name with a comma cannot be written there)
    ([["0.1, " + h.name], ["0.1," + h.name, "0.0"]] if "," not in h.name else [])))
@rule({R}, "isi")
def no_isi(h): h.set("Internal-Sender-Identifier")
@rule({R}, "isd")
def no_isd(h): h.set("Internal-Sender-Description")
@rule({R}, "bgi")
def no_bgi(h): h.set("Bag-Group-Identifier", *h.rng.choice([[], [""]]))
@rule({E}, "bgi")
def blank_among(h): h.set("Bag-Group-Identifier", "", "g1")
@rule({E}, "mem")
def no_members(h): h.nomem = True
@rule({E}, "mem")
def head_unlisted(h): h.members = [m for m in h.members if m[0] != h.name]
@rule({E}, "mem")
def head_not_last(h): h.members = h.members[-1:] + h.members[:-1] + [["zz"]]
@rule({W}, "mem")
def repeated_member(h):
    if not h.members: return False
    for k in range(h.many()):
        h.members.insert(0, list(h.rng.choice(h.members)))
@rule({E}, "mem")
def relative_url(h):
    if not h.members: return False
    for k in range(h.many()):
        h.members.insert(h.rng.randrange(len(h.members)),
                         ["rel%d" % k, h.rng.choice(["bags/rel.zip", "/rel.zip", "../rel"])] +
                         h.rng.choice([[], [], ["info"], ["# comment"], ["in", "fo", "# c"]]))
@rule({E}, "lu")
def no_lookup(h): h.nolu = True
@rule({E}, "lu")
def lookup_one_field(h):
    for k in range(h.many()):
        h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), ["data/some thing %d" % k])
@rule({E}, "lu")
def lookup_empty_field(h):
    h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), h.rng.choice([["data/no bag", ""], ["", "other"], ["data/x", " "]]))
@rule({E}, "lu")
def lookup_three_fields(h):
    for k in range(h.many()):
        h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), ["data/some thing %d" % k, "other", h.rng.choice(["x", "x", ""])])
@rule({E}, "lu")
def lookup_not_there(h):
    for k in range(h.many()):
        h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), ["%s%d" % (h.rng.choice(["data/not there", "data.none", "nodir/x", "multibag/x"]), k), h.name])
@rule({W}, "lu")
def lookup_repeated(h):
    if not h.lookup: return False
    for k in range(h.many()):
        x = list(h.rng.choice(h.lookup))
        if h.rng.random() < 0.4 and len(x) == 2:
            x[1] = "quite another"
        h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), x)
@rule({E}, "lu")
def lookup_a_directory(h): h.lookup.insert(h.rng.randrange(len(h.lookup) + 1), ["data", h.name])
@rule({R}, "lu")
def payload_unlisted(h):
    c = [x for x in h.lookup if x[0] in h.s.files and x[0].startswith("data/")
         and x[0].split("/")[-1][0] not in "._"]
    if not c:
        return False
    h.lookup.remove(h.rng.choice(c))
@rule({E}, "agg")
def bad_agginfo(h):
    if h.version == "0.3":
        return False
    h.agg = h.rng.choice(["no colon here\n", "A: b\nno colon\n", ": x\nyy\n"])
@rule({E}, "bag")
def bad_bag(h): h.badhash = True

# rules whose breakage hides (or implies) others
MASKS = {"dir": {"mem", "lu", "agg", "tagdir"}, "headver": set(), "version": {"agg"}}


PARTS = ["version", "reference", "tag_directory", "head_version", "head_deprecates", "baginfo_recs",
         "member_bags", "file_lookup", "aggregation_info"]


def case(ctx, i):
    (head if i % 4 != 3 else member)(ctx, ctx.rng, i)


def severities(res):
    return set(x.type for x in res.failed())


def head(ctx, rng, i):
    h = Head(rng)
    names = sorted(RULES)
    n = 0 if i % 10 == 0 else (1 if rng.random() < 0.6 else rng.choice([2, 3]))
    if n and i % 4 == 1:
        picks = [names[(i // 4) % len(names)]]
    else:
        picks = rng.sample(names, n)
    want, groups, done = set(), set(), []
    for p in picks:
        sev, g, f = RULES[p]
        if g in groups or any(g in MASKS.get(x, ()) for x in groups) or \
           any(x in MASKS.get(g, ()) for x in groups):
            continue
        if p == "no_head_version" and groups & {"mem", "lu", "agg", "deprecates"} or \
           "no_head_version" in done and g in {"mem", "lu", "agg", "deprecates"}:
            continue
        if f(h) is False:
            continue
        groups.add(g)
        done.append(p)
        want |= sev
    bag = h.write(ctx.path())
    ctx.note([done, h.info, h.members, h.lookup])
    forms = [""] + ([rng.choice(gen.FORMS)] if rng.random() < 0.5 else [])
    for form in forms:
        p = bag
        if form:
            p = gen.serialize(bag, ctx.path("arch" + h.name), form, rng.choice(["all", "needed"]), rng)
            ctx.count("serialized")
        what = "+".join(sorted(done)) or "compliant"
        res = HeadBagValidator(p).validate(ALL)
        got = severities(res)
        ctx.check(got == want, "head bag (%s) %s: severities of failed tests are %s, not %s: %s"
                  % (what, form, sorted(got), sorted(want), [str(x) for x in res.failed()][:5]))
        # a rule about lines is reported with the number of (at least the first of) them
        said = [c for x in res.failed() for c in x.comments]
        for (f, kind), lines in (h.bad_lines().items() if not h.nodir else ()):
            ctx.check(any(re.search(r"\b%d\b" % lines[0], c) for c in said),
                      "head bag (%s): no report names line %d of %s (%s): %s" % (what, lines[0], f, kind, said))
            ctx.count("lines_reported", len(lines))
            if len(lines) > 4:
                ctx.count("more_than_four_lines")
        # the parts by themselves
        if form == "" and "version" not in groups:
            v = HeadBagValidator(p)
            got, later = set(), set()
            for part in PARTS:
                r = getattr(v, "validate_" + part)(ALL, None, h.version) if rng.random() < 0.7 or h.version == "0.3" \
                    else getattr(v, "validate_" + part)()
                ctx.check(r is not None, "validate_%s() returned nothing" % part)
                got |= severities(r)
                mine = ValidationResults("x", ALL, h.version)
                ctx.check(getattr(v, "validate_" + part)(ALL, mine, h.version) is mine,
                          "validate_%s() did not return the results given" % part)
                later |= severities(mine)
                for x in list(r.applied()) + list(mine.applied()):
                    ctx.equal(x.profile_version, h.version, "profile version of the issue %s" % x.label)
            exp = set().union(*[RULES[d][0] for d in done if RULES[d][1] != "bag"] + [set()])
            ctx.equal(got, exp, "severities found by the parts of the validation of a head bag (%s)" % what)
            ctx.equal(later, exp, "severities collected by the parts of the validation of a head bag (%s)" % what)
            ctx.count("by_parts")
        for w in (ERROR, WARN, REC, PROB, ALL):
            ok = not any(x & w for x in want)
            ctx.equal(HeadBagValidator(p).is_valid(w), ok, "is_valid(%d) of a head bag (%s)" % (w, what))
        ok = not (want & {E, W})
        try:
            validate_headbag(p)
            r = True
        except MultibagValidationError as ex:
            r = False
            ctx.check(str(ex), "an empty message")
        ctx.equal(r, ok, "validate_headbag() (%s)" % what)
        ctx.feature("head", what, form, h.version, h.dir)
    ctx.count("compliant_heads" if not done else "broken_heads")
    if len(done) > 1:
        ctx.count("combinations")
    ctx.sample({"head bag broken by": done})


NAMES_BAD = [" lead", "trail ", "a\tb", "\tx", "nl\n", "\u00a0x", "x\u2003"]

def member(ctx, rng, i):
    s = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]), hostile=rng.choice([0, 0.5]))
    s.info = [x for x in (s.info or [])]
    want, hidden, done = set(), set(), []
    has = rng.random() < 0.8
    if has:
        s.info.append(("Multibag-Version", rng.choice(["0.3", "0.4", "0.4"])))
    else:
        want.add(R)
        done.append("no_version")
    extra = []
    if i % 12 != 3 and has:
        opts = ["name", "deprecates", "tagdir", "dir", "bag", "head"]
        for k in rng.sample(opts, rng.choice([1, 1, 2])):
            if k == "head":
                s.info.append(("Multibag-Head-Version", "1"))
            elif k == "name":
                s.name = rng.choice(NAMES_BAD)
                hidden.add(E)
            elif k == "deprecates":
                s.info.append(("Multibag-Head-Deprecates", "1"))
            elif k == "tagdir":
                s.info.append(("Multibag-Tag-Directory", "tt"))
            elif k == "dir":
                extra.append("dir")
            done.append(k)
        if "head" not in done:
            if set(done) & {"deprecates", "tagdir", "dir"}:
                hidden.add(W)
    if "dir" in done:
        s.extra_raw = {("tt" if "tagdir" in done else "multibag") + "/x.txt": b"x"}
    if not done:
        s.extra_raw = {"multibagx/t.txt": b"x"} if rng.random() < 0.3 else {}
    bag = gen.write_bag(s, ctx.path(), rng)
    if "bag" in done:
        want.add(E)
        with mon.quiet():
            with open(os.path.join(bag, "data", "_zz not listed"), "w") as fd:
                fd.write("x")
    what = "+".join(sorted(done)) or "compliant"
    full = want | hidden
    forms = [""] + ([rng.choice(gen.FORMS)] if rng.random() < 0.5 else [])
    for form in forms:
        p = bag
        if form:
            p = gen.serialize(bag, ctx.path("arch"), form, "all", rng)
            ctx.count("serialized")
        # with the caller's own results
        res = ValidationResults("x", ALL)
        v = MemberBagValidator(p)
        ctx.check(v.validate(ALL, res) is res, "validate() did not return the results given")
        ctx.equal(severities(res), full, "member bag (%s) %s: severities of failed tests (%s)"
                  % (what, form, [str(x) for x in res.failed()][:5]))
        # the parts
        if has:
            vers = [x[1] for x in s.info if x[0] == "Multibag-Version"][0]
            got = severities(v.validate_bagname(ALL, None, vers)) | \
                severities(v.validate_as_nonhead(ALL, None, vers))
            ctx.equal(got, hidden, "parts of the validation of a member bag (%s)" % what)
        # without
        res = MemberBagValidator(p).validate(ALL)
        got = severities(res)
        if got != full and got == want:
            ctx.known("member-validate-drops-name-and-nonhead",
                      "MemberBagValidator.validate() without results does not report: " + what)
        else:
            ctx.equal(got, full, "member bag (%s) %s: severities of failed tests (%s)"
                      % (what, form, [str(x) for x in res.failed()][:5]))
        try:
            validate_memberbag(p)
            r = True
        except MultibagValidationError as ex:
            r = False
        if r != (not full & {E, W}) and r == (not want & {E, W}):
            ctx.known("member-validate-drops-name-and-nonhead", "validate_memberbag() does not report: " + what)
        else:
            ctx.equal(r, not (full & {E, W}), "validate_memberbag() (%s)" % what)
        ctx.feature("member", what, form)
    ctx.count("compliant_members" if not full else "broken_members")
    ctx.sample({"member bag broken by": done})
