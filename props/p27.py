"""
P27: validation results are complete, consistent and never alter the bag
"""
import os, re, json, itertools
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag.validate import BagValidator
from multibag import (HeadBagValidator, MemberBagValidator, validate_headbag, validate_memberbag,
                      MultibagValidationError)
from multibag.validate import ERROR, WARN, REC, ALL, PROB
from multibag.validate.base import ValidationResults, ValidationIssue, Validator
from props import p15

ID = "P27"
LEVEL = "exploration"
RULE = ("random test outcomes are entered into result sets, and broken and compliant bags are validated by each "
        "validator in each way of asking; distinct by (validator, rules broken, selection of severities) and by "
        "the numbers of outcomes per severity")
ASSUMPTIONS = ["validation of member bags: the known finding of P15 is excepted"]
N = {"quick": 1250, "thorough": 5000}
REQUIRED = ["synthetic", "tuples", "errors_raised", "validations", "heads", "members", "plain_bags", "collected",
            "multi_failures", "single_failures"]

TYPES = [ERROR, WARN, REC]
SELECT = list(range(0, 8))
TEXT = ["", "x", "two\nlines", "\u00e9\u4e2d", "a: b", "{0} %s", "  ", "\t", "0"]


def sig(x):
    return (x.type, x.profile_version, x.label, x.specification, x.passed(), tuple(x.comments))


def consistent(ctx, res, want, what):
    "the lists and counts of a result set agree, and the verdict with them"
    per = {}
    for t in TYPES:
        a = [sig(x) for x in res.applied(t)]
        ctx.check(all(x[0] == t for x in a), what + ": tests of another severity among those of %d" % t)
        per[t] = a
    for s in SELECT:
        a = [x for t in TYPES if s & t for x in per[t]]
        ctx.equal([sig(x) for x in res.applied(s)], a, what + ": applied(%d)" % s)
        f, p = [x for x in a if not x[4]], [x for x in a if x[4]]
        ctx.equal([sig(x) for x in res.failed(s)], f, what + ": failed(%d)" % s)
        ctx.equal([sig(x) for x in res.passed(s)], p, what + ": passed(%d)" % s)
        ctx.equal((res.count_applied(s), res.count_failed(s), res.count_passed(s)), (len(a), len(f), len(p)),
                  what + ": counts for %d" % s)
    ctx.equal([sig(x) for x in res.applied()], [x for t in TYPES for x in per[t]], what + ": applied()")
    ctx.equal(sorted(sig(x) for x in res.failed()), sorted(x for t in TYPES for x in per[t] if not x[4]),
              what + ": failed()")
    ctx.equal(len(res.passed()) + len(res.failed()), res.count_applied(), what + ": passed and failed")
    ctx.equal(bool(res.ok()), not any(not x[4] for t in TYPES if want & t for x in per[t]), what + ": ok()")
    return per


def roundtrip(ctx, x):
    y = ValidationIssue.from_tuple(x.to_tuple())
    ctx.equal(sig(y), sig(x), "issue read back from a tuple")
    ctx.equal(y.to_tuple()[:6], x.to_tuple()[:6], "tuple of the issue read back")
    j = json.loads(json.dumps(x.to_json_obj()))
    ctx.equal((j["label"], j["spec"], j["profile_version"], tuple(j["comments"])),
              (x.label, x.specification, x.profile_version, tuple(x.comments)), "JSON form of an issue")
    ctx.equal(j["type"], {ERROR: "error", WARN: "warning", REC: "recommendation"}[x.type], "JSON type of an issue")
    ctx.check(x.failed() == (not x.passed()), "failed() and passed() of an issue")
    s = x.summary
    ctx.check(x.label in s and (x.specification or "") in s, "summary lacks the label or the specification")
    word = {ERROR: "ERROR", WARN: "WARNING", REC: "RECOMMENDATION"}[x.type]
    ctx.check(s.startswith("PASSED" if x.passed() else word), "summary %r does not give the outcome" % s)
    d = x.description
    ctx.check(d.startswith(s) and all(c in d for c in x.comments), "description lacks a part")
    # what is read back is independent of the original
    y.add_comment("more")
    ctx.check("more" not in x.comments, "the comments of an issue are shared with its copy")
    ctx.count("tuples")


def raised(ctx, ex, res, what):
    "an error raised carries the results in full"
    f = res.failed()
    ctx.equal([sig(x) for x in ex.results.failed()], [sig(x) for x in f], what + ": results of the error")
    text = str(ex)
    if len(f) == 1:
        ctx.check(f[0].summary in text, what + ": the error does not name the test that failed")
        ctx.count("single_failures")
    else:
        ctx.check(str(len(f)) in ex.message, what + ": the error's message lacks the number of failures")
        for x in f[:3]:
            ctx.check(x.summary in text, what + ": the error does not name one of the first failures")
        ctx.equal(len(ex.details), len(f), what + ": details of the error")
        ctx.count("multi_failures")
    ctx.count("errors_raised")


class Made(Validator):
    "a validator with given outcomes"
    def __init__(self, outcomes):
        super(Made, self).__init__("made")
        self.outcomes = outcomes

    def validate(self, want=PROB, results=None):
        out = super(Made, self).validate(want, results)
        for t, label, spec, ok, comm in self.outcomes:
            issue = out._issue(label, spec)
            {ERROR: out._err, WARN: out._warn, REC: out._rec}[t](issue, ok, comm)
        return out


def synthetic(ctx, rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 8, 20])
    pf = rng.choice([0, 0.1, 0.5, 1])
    outcomes = []
    for k in range(n):
        comm = rng.choice([None, [], "one comment", ["a", "b"], ("t1", "t2"),
                           [rng.choice(TEXT) for j in range(rng.choice([3, 12]))]])
        outcomes.append((rng.choice(TYPES), "l%d" % rng.randrange(6), rng.choice(TEXT), rng.random() >= pf, comm))
    norm = [(t, l, s, ok, (c,) if isinstance(c, str) else tuple(c or ())) for t, l, s, ok, c in outcomes]
    version = rng.choice(["0.2", "0.3", "0.4"])
    for want in rng.sample(SELECT, 3):
        v = Made(outcomes)
        what = "made validator(%d)" % want
        res = v.validate(want)
        per = consistent(ctx, res, want, what)
        ctx.equal([(t,) + x[2:] for t in TYPES for x in per[t]],
                  [x for t in TYPES for x in norm if x[0] == t], what + ": entered outcomes")
        ok = not any(not x[3] for x in norm if x[0] & want)
        ctx.equal(bool(v.is_valid(want)), ok, what + ": is_valid")
        try:
            v.ensure_valid(want)
            r = True
        except MultibagValidationError as ex:
            r = False
            raised(ctx, ex, res, what)
        ctx.equal(r, ok, what + ": ensure_valid")
        # collected
        mine = ValidationResults("mine", want, version)
        ctx.check(mine.ok(), "empty results are not ok")
        ctx.check(v.validate(rng.choice(SELECT), mine) is mine, what + ": other results are returned")
        ctx.check(v.validate(rng.choice(SELECT), mine) is mine, what + ": other results are returned")
        per2 = consistent(ctx, mine, want, what + " twice")
        for t in TYPES:
            one = [(x[0],) + x[2:] for x in per[t]]
            ctx.equal([(x[0],) + x[2:] for x in per2[t]], one + one, what + ": collected outcomes")
            ctx.check(all(x[1] == version for x in per2[t]), what + ": profile version of collected outcomes")
        ctx.count("collected")
        for x in res.applied() + mine.applied():
            roundtrip(ctx, x)
        # what one does with the lists is one's own business
        for s in SELECT:
            for got in (mine.applied(s), mine.failed(s), mine.passed(s)):
                got.append(None)
                got.reverse()
                del got[:]
        ctx.equal(consistent(ctx, mine, want, what + " twice"), per2, what + ": results after their lists were changed")
        ctx.feature("made", want, *[(len([x for x in norm if x[0] == t]) > 0,
                                     min(2, len([x for x in norm if x[0] == t and not x[3]]))) for t in TYPES])
    ctx.count("synthetic")
    # one issue object entered repeatedly: each entry keeps its own outcome
    res = ValidationResults("x", ALL)
    t = res._issue("lab", "spec")
    res._err(t, True)
    res._err(t, False, "why")
    res._warn(t, True)
    ctx.equal([(x.type, x.passed()) for x in res.applied()], [(ERROR, True), (ERROR, False), (WARN, True)],
              "outcomes of an issue that is entered repeatedly")


def real(ctx, rng, i):
    kind = ["head", "head", "member", "plain"][(i // 2) % 4]
    done = []
    if kind == "head":
        h = p15.Head(rng)
        for k in rng.sample(sorted(p15.RULES), rng.choice([0, 0, 1, 1, 2, 4, 6])):
            if p15.RULES[k][2](h) is not False:
                done.append(k)
        with mon.quiet():
            bag = h.write(ctx.path())
        ctx.count("heads")
    else:
        s = gen.random_spec(rng, nfiles=rng.choice([1, 2, 4]), hostile=rng.choice([0, 0.5]))
        s.info = list(s.info or [])
        if kind == "member":
            for n in ("Multibag-Version", "Multibag-Head-Deprecates", "Multibag-Tag-Directory"):
                if rng.random() < 0.5:
                    s.info.append((n, "0.4"))
                    done.append(n)
            ctx.count("members")
        else:
            ctx.count("plain_bags")
        bag = gen.write_bag(s, ctx.path(), rng)
        if rng.random() < 0.3:
            done.append("bag")
            with mon.quiet():
                with open(os.path.join(bag, "data", "_zz not listed"), "w") as fd:
                    fd.write("x")
    form = ""
    if rng.random() < 0.3:
        form = rng.choice(gen.FORMS)
        bag = gen.serialize(bag, ctx.path("arch"), form, "all", rng)
    before = oracle.snapshot(os.path.dirname(bag))
    # any validator may be asked about any bag
    full = None
    for cls, fun in ((BagValidator, None), (HeadBagValidator, validate_headbag),
                     (MemberBagValidator, validate_memberbag)):
        name = cls.__name__
        what = "%s of a %s bag (%s) %s" % (name, kind, "+".join(sorted(done)), form)
        ctx.note([what, bag])
        full = cls(bag).validate(ALL)
        pf = consistent(ctx, full, ALL, what)
        v = cls(bag)
        for want in rng.sample(SELECT[1:], 3) + [PROB]:
            res = v.validate(want)
            pr = consistent(ctx, res, want, what + " want=%d" % want)
            for t in TYPES:
                if want & t:
                    ctx.equal([x[:5] for x in pr[t]], [x[:5] for x in pf[t]],
                              what + ": outcomes of severity %d with want=%d" % (t, want))
            ok = not any(not x[4] for t in TYPES if want & t for x in pf[t])
            ctx.equal(bool(v.is_valid(want)), ok, what + ": is_valid(%d)" % want)
            for f in [v.ensure_valid] + ([lambda w: fun(bag, w)] if fun else []):
                try:
                    f(want)
                    r = True
                except MultibagValidationError as ex:
                    r = False
                    raised(ctx, ex, res, what)
                ctx.equal(r, ok, what + ": raising form with want=%d" % want)
            ctx.feature(name, kind, "+".join(sorted(done))[:60], want, ok)
            ctx.count("validations")
        # collected with the results of another
        sel = rng.choice(SELECT)        # (what the results are wanted for decides on ok() only)
        mine = ValidationResults("mine", sel)
        ctx.check(BagValidator(bag).validate(ALL, mine) is mine, what + ": other results are returned")
        one = {t: [sig(x)[:5] for x in mine.applied(t)] for t in TYPES}
        ctx.check(cls(bag).validate(ALL, mine) is mine, what + ": other results are returned")
        pm = consistent(ctx, mine, sel, what + " collected")
        for t in TYPES:
            got = [x[:5] for x in pm[t]]
            exp = one[t] + [x[:5] for x in pf[t]]
            if cls is MemberBagValidator:
                # (known finding of P15: without results, some outcomes are dropped)
                ctx.equal(got[:len(exp)], exp, what + ": collected outcomes of severity %d" % t)
                extra = [x for x in got[len(exp):] if not re.match(r"2\.1|2-(Head|Tag)", x[2])]
                ctx.equal(extra, [], what + ": further collected outcomes of severity %d" % t)
            else:
                ctx.equal(got, exp, what + ": collected outcomes of severity %d" % t)
        ctx.count("collected")
        for x in full.failed():
            roundtrip(ctx, x)
    ctx.equal(oracle.snapshot(os.path.dirname(bag)), before, "validation altered the bag")
    ctx.sample({"bag": kind, "broken by": done})


def case(ctx, i):
    if i % 2:
        synthetic(ctx, ctx.rng)
    else:
        real(ctx, ctx.rng, i)
