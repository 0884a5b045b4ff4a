"""
P25: split bags carry the source's bag-info as documented
"""
import os
from collections import OrderedDict
from vlib import gen, oracle, mon, ops
from vlib.ops import *

ID = "P25"
LEVEL = "exploration"
RULE = ("random bag-info contents (repeated, folded, hostile values, elements that identify the bag, "
        "multibag elements) and lists of elements not to be passed on; every output bag's bag-info "
        "is compared with an independent model of the documented transformation; distinct by (set "
        "of transformed elements in the source, elements not passed, kind of source, number of bags)")
ASSUMPTIONS = ["white space in folded values is not significant",
               "Multibag-* elements of the source are about the source as a multibag and not passed on"]
N = {"quick": 1200, "thorough": 6000}
REQUIRED = ["bags_compared", "elements_compared", "not_passed", "transformed", "aggregation_infos",
            "no_bag_info", "head_sources"]

VALUES = ["v", "a: b: c", "100%s %d {0} {name}", "\u00e9\u65e5\u672c \U0001f600", "x" * 300, "# hash", "0",
          "one\n  two\n\tthree", "tab\tinside", "http://x/y?z=1&w=%20#f", "'q' \"dq\" \\n", "a,b;c", "1 of 3",
          "-", "Name: Value", "x\n  Looks-Like: a tag"]
NAMES = ["Contact-Name", "External-Description", "X-Multibag", "x", "Source-Organization", "Bag-Group-Identifier",
         "Bag-Count", "Bagging-Date", "Internal-Sender-Identifiers", "External-Identifier-Type", "MULTIBAG-X",
         "Multibagger", "Payload-Oxums", "Bag-Software-Agent", "\u00c9l\u00e9ment", "Two Words"]
SPECIAL = ["Internal-Sender-Identifier", "Internal-Sender-Description", "External-Identifier", "Bag-Size"]


def random_info(rng):
    out = []
    for n in rng.sample(NAMES, rng.randrange(0, 6)) + \
            [s for s in SPECIAL if rng.random() < 0.5]:
        for k in range(rng.choice([1, 1, 2, 3])):
            out.append((n, rng.choice(VALUES)))
    if rng.random() < 0.2:
        for n in rng.sample(["Multibag-Version", "Multibag-Reference", "Multibag-Source-Bag-Size",
                             "Multibag-X"], 2):
            out.append((n, rng.choice(VALUES)))
    if rng.random() < 0.6:
        rng.shuffle(out)
    return out


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng, nfiles=rng.choice([0, 1, 3, 5, 8]))
    spec.info = random_info(rng)
    spec.oxum = rng.random() < 0.8
    if rng.random() < 0.08:
        spec.info = None
        ctx.count("no_bag_info")
    src = gen.write_bag(spec, ctx.path(), rng)
    if rng.random() < 0.2:
        make_single_multibag(src, "5")
        ctx.count("head_sources")
    want = oracle.read_tree(src)
    pairs = oracle.parse_tags(want.files["bag-info.txt"].decode("utf-8")) \
        if "bag-info.txt" in want.files else []
    source = OrderedDict()
    for n, v in pairs:
        source.setdefault(n, []).append(oracle.squash(v))

    nopass = None
    if rng.random() < 0.5:
        nopass = rng.sample(sorted(source), min(len(source), rng.choice([0, 1, 2, 3]))) + \
            rng.sample(["Contact", "Nothing", "External-Identifie", "Bag-Size", "Payload-Oxum"],
                       rng.choice([0, 1]))
        rng.shuffle(nopass)
    splitter, desc = ops.random_splitter(rng, spec, src)
    out = ctx.path("out")
    os.mkdir(out)
    hv = "1"
    if rng.random() < 0.5:
        paths = splitter.split(src, out, None, nopass)
    else:
        plan = splitter.plan(src, ListNamer("nm"))
        if rng.random() < 0.5:
            hv = plan.head_version = rng.choice(["2", "1.0.3", "2018-06"])
        paths = list(plan.apply_iter(out, info_nopass=nopass))
    for k, p in enumerate(paths):
        check(ctx, p, source, nopass or [], k == len(paths) - 1, hv)
    ctx.equal(oracle.read_tree(src).files, want.files, "the source changed")
    head = oracle.read_tree(paths[-1])
    agg = head.files.get("multibag/aggregation-info.txt")
    if pairs:
        ctx.check(agg is not None, "the head bag has no aggregation-info.txt")
        ctx.equal([(n, oracle.squash(v)) for n, v in oracle.parse_tags(agg.decode("utf-8"))],
                  [(n, oracle.squash(v)) for n, v in pairs],
                  "aggregation-info.txt is not the source's bag-info")
        ctx.count("aggregation_infos")
    ctx.feature(",".join(s for s in SPECIAL if s in source), bool(nopass) and len(nopass),
                "Multibag-Head-Version" in source, min(len(paths), 4), spec.info is None)
    ctx.sample({"info": spec.info, "not passed": nopass, "bags": [os.path.basename(p) for p in paths]})


def check(ctx, path, source, nopass, ishead, hv):
    name = os.path.basename(path)
    t = oracle.read_tree(path)
    got = {}
    for n, v in oracle.parse_tags(t.files["bag-info.txt"].decode("utf-8")):
        got.setdefault(n, []).append(oracle.squash(v))
    want = {}
    for n, vals in source.items():
        if n.startswith("Multibag-"):
            continue
        if n in nopass:
            ctx.count("not_passed")
            continue
        if n in SPECIAL:
            want.setdefault("Multibag-Source-" + n, []).extend(vals)
            ctx.count("transformed")
        if n == "Internal-Sender-Identifier":
            want[n] = [name]
        elif n == "Internal-Sender-Description":
            want[n] = "description"
        elif n == "External-Identifier":
            want[n] = [vals[0] + "/mbag:" + name]
            want.setdefault("Bag-Group-Identifier", []).extend(vals)
        elif n == "Bag-Size":
            pass
        elif n == "Payload-Oxum":
            want[n] = ["%d.%d" % oracle.payload_oxum(t)]
        else:
            want.setdefault(n, []).extend(vals)
    want["Multibag-Version"] = ["0.4"]
    want["Multibag-Tag-Directory"] = ["multibag"]
    if ishead:
        want["Multibag-Head-Version"] = [hv]
    ctx.count("bags_compared")
    d = "Internal-Sender-Description"
    if want.get(d):
        ctx.equal(len(got.get(d, [])), 1, "number of values of " + d)
        ctx.check("multibag" in got[d][0].lower() and got[d] != source[d],
                  "%s of an output bag does not describe it as part of an aggregation: %r" % (d, got[d]))
        del want[d]
        got = dict(got)
        del got[d]
    # (optional further elements of the profile)
    if "Multibag-Reference" not in want:
        got.pop("Multibag-Reference", None)
    for n in sorted(set(want) | set(got)):
        ctx.count("elements_compared")
        ctx.equal(got.get(n), want.get(n), "element %r of the bag-info of output bag %s" % (n, name))
