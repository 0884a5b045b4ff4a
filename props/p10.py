"""
P10: converting a bag to a single-bag aggregation
"""
import os, re, bagit
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag import HeadBagValidator, validate_headbag
from multibag.constants import CURRENT_VERSION

ID = "P10"
LEVEL = "exploration"
RULE = ("random bags are converted (function, class, piecewise with include/exclude lists, other "
        "tag directories, repeatedly) and judged by independent checkers against the original; "
        "distinct by (way, tag directory, lists given, repeated, bag-info, algorithms)")
ASSUMPTIONS = ["an entry that is both included and excluded explicitly is not used"]
N = {"quick": 1200, "thorough": 6000}
REQUIRED = ["kept_files", "lookup_lists", "repeats", "other_tagdirs", "restored", "changed_between"]


def listed(tree, include, exclude):
    out = set()
    for inc in include:
        if inc in tree.files:
            out.add(inc)
        else:
            for p in tree.files:
                if p.startswith(inc + "/") and p not in exclude and \
                   not any(p.startswith(x + "/") for x in exclude):
                    out.add(p)
    return out


def reread(bag, before, td):
    "the bag as it is now, without what converting it has added"
    t = oracle.read_tree(bag)
    for p in list(t.files):
        if p.startswith(td + "/") or (p.startswith("tagmanifest-") and p not in before.files):
            del t.files[p]
    t.dirs = set(d for d in t.dirs if d in before.dirs)
    t.files["bag-info.txt"] = before.files.get("bag-info.txt", b"")
    if "Payload-Oxum" in oracle.info_of(before):
        t.files["bag-info.txt"] = re.sub(rb"Payload-Oxum: .*", ("Payload-Oxum: %d.%d" % oracle.payload_oxum(t)).encode(),
                                         t.files["bag-info.txt"])
    return t


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng)
    bag = gen.write_bag(spec, ctx.path(), rng)
    before = oracle.read_tree(bag)
    way = rng.choice(["func", "class", "pieces", "pieces"])
    td = "multibag" if way == "func" or rng.random() < 0.6 else rng.choice(["mbtags", "a/b c"])
    if rng.random() < 0.2 and not any(p.startswith(td + "/") for p in before.files):
        # tag files are left of an earlier use
        d = os.path.join(bag, td)
        with mon.quiet():
            os.makedirs(d, exist_ok=True)
            for f, text in (("member-bags.tsv", "other bag\n"), ("file-lookup.tsv", "data/stale\tother bag\n"),
                            ("deleted.txt", "data/never was\n")):
                if rng.random() < 0.7:
                    with open(os.path.join(d, f), "w") as fd:
                        fd.write(text)
        ctx.count("stale_tag_files")
    ver = rng.choice(["1", "1.0.2", "2020-01"])
    pid = rng.choice([None, "doi:10.1/x", "https://x.org/y?z"])
    comm, info = None, []
    ctx.note([spec.describe(), way, td, ver, pid])
    arg = bag + rng.choice(["", "/"])
    want = set(spec.payload())
    inc = exc = None
    n = rng.choice([1, 1, 2, 3])
    for k in range(n):
        if k:
            ctx.count("repeats")
            if len(spec.payload()) > 1 and rng.random() < 0.5 and way != "pieces":
                # a file is removed from (or renamed in) the bag in between
                p = rng.choice(sorted(spec.payload()))
                data = spec.files.pop(p)
                with mon.quiet():
                    os.remove(os.path.join(bag, p))
                if rng.random() < 0.5:
                    q = p + " (renamed)"
                    if q not in spec.files and len(os.path.basename(q).encode("utf-8")) < 250:
                        spec.files[q] = data
                        with mon.quiet(), open(os.path.join(bag, q), "wb") as fd:
                            fd.write(data)
                b = bagit.Bag(bag)
                b.save(manifests=True)
                before = reread(bag, before, td)
                want = set(spec.payload())
                ctx.count("changed_between")
        if way == "func":
            if ver == "1" and rng.random() < 0.5:
                make_single_multibag(arg, pid=pid)
            else:
                make_single_multibag(arg, ver, pid)
        elif way == "class":
            SingleMultibagMaker(arg, td).convert(ver, pid)
        else:
            mk = SingleMultibagMaker(arg, td)
            comm = rng.choice([None, "a comment"])
            info = rng.choice([[], ["x", "y z"]])
            mk.write_member_bags(pid, comm, *info)
            paths = sorted(spec.files)
            want = set()
            first = True
            for _ in range(rng.choice([1, 1, 2])):
                inc = exc = None
                if rng.random() < 0.7:
                    dirs = sorted(set(p[:j] for p in paths for j in range(len(p)) if p[j] == "/")
                                  | set(["data"]))
                    inc = rng.sample(dirs, min(len(dirs), rng.choice([1, 1, 2])))
                    inc += rng.sample(paths, min(len(paths), rng.choice([0, 1, 2])))
                    if rng.random() < 0.2:
                        inc.append("data/not there")
                    inc = [x for x in inc if x != "multibag"]
                if rng.random() < 0.5:
                    dirs = sorted(set(p.rsplit("/", 1)[0] for p in paths if p.count("/") > 1))
                    exc = rng.sample(paths, min(len(paths), rng.choice([0, 1, 2])))
                    exc += rng.sample(dirs, min(len(dirs), rng.choice([0, 1])))
                    exc = [x for x in exc if x not in paths or x not in (inc or [])]
                    if inc and len(inc) > 1 and rng.random() < 0.4 and inc[0] not in paths:
                        exc.append(inc[0])
                if inc is not None and len(inc) == 1 and rng.random() < 0.4:
                    a_inc = inc[0]
                else:
                    a_inc = inc
                a_exc = exc[0] if exc and len(exc) == 1 and rng.random() < 0.4 else exc
                mk.write_file_lookup(a_inc, a_exc, trunc=first)
                want |= listed(before, ["data"] if inc is None else inc, exc or [])
                first = False
                ctx.count("lookup_lists")
            mk.update_info(ver)
    if td != "multibag":
        ctx.count("other_tagdirs")
    t = oracle.read_tree(bag)
    probs = oracle.bag_problems(t) + oracle.profile_problems(t)
    ctx.check(not probs, "the converted bag is not compliant: %s" % probs[:3])
    ctx.equal(oracle.tagdir_of(t), td, "the multibag tag directory")
    ctx.equal(oracle.members_of(t), [(spec.name, pid, list(info), comm)], "the member list")
    ctx.equal(oracle.lookup_of(t), {p: spec.name for p in want}, "the file lookup")
    bi, b0 = oracle.info_of(t), oracle.info_of(before)
    ctx.equal(bi["Multibag-Head-Version"], [ver], "Multibag-Head-Version")
    ctx.equal(bi["Multibag-Version"], [CURRENT_VERSION], "Multibag-Version")
    ctx.check("Multibag-Head-Deprecates" not in bi, "it deprecates something")
    # nothing of the bag itself is changed
    for p, data in before.files.items():
        if not oracle.is_special(p):
            ctx.count("kept_files")
            ctx.check(t.files.get(p) == data, "%r was changed by the conversion" % p)
        elif p.startswith("manifest-") or p == "bagit.txt":
            ctx.check(t.files.get(p) == data, "%s was changed by the conversion" % p)
    ctx.equal(set(p for p in t.files if not p.startswith(td + "/") and not oracle.is_special(p)),
              set(p for p in before.files if not oracle.is_special(p)), "files of the bag")
    ctx.check(before.dirs <= t.dirs, "directories were removed")
    for k in b0:
        if k in ("Bag-Size", "Bag-Count"):
            continue
        got = [oracle.squash(x) for x in bi.get(k, [])]
        exp = [oracle.squash(x) for x in b0[k]]
        if k == "Internal-Sender-Description":
            ctx.check(len(got) <= len(exp) + 1, "Internal-Sender-Description is repeated: %r" % got)
            got = got[:len(exp)]
        ctx.equal(got, exp, "bag-info " + k)
    ctx.check(is_headbag(bag), "is_headbag() is False")
    res = HeadBagValidator(bag).validate()
    ctx.check(not res.failed(3), "the validator reports: %s" % [str(f) for f in res.failed(3)][:2])

    # and it can be restored, in place or elsewhere
    dest = rng.choice([None, ctx.path("dest")])
    restore_bag(bag, dest)
    ctx.count("restored")
    r = oracle.read_tree(dest or bag)
    ctx.equal(set(ops.content_files(r)), set(ops.content_files(before)), "files after restoring")
    ctx.check(ops.content_files(r) == ops.content_files(before), "content after restoring")
    ops.check_clean_bag(ctx, r, "the restored bag")
    ctx.equal(oracle.manifests(r)[0], oracle.manifests(before)[0], "manifests after restoring")
    ctx.feature(way, td, inc is None, exc is None, n, spec.info is None, len(spec.algs), pid is None,
                dest is None)
    ctx.sample({"bag": spec.describe(), "way": way, "tagdir": td, "listed": sorted(want)[:8]})
