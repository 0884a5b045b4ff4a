"""
P31: the sizes that are recorded in bag-info.txt are true
"""
import os, re, random, shutil
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P31"
LEVEL = "exploration"
RULE = ("bags are converted, amended, split, restored (elsewhere, in place) and have their sizes updated by hand, with "
        "Bag-Size and Payload-Oxum absent, wrong, repeated or right before, and with (sparse) payloads up to terabytes; "
        "what bag-info.txt then says is compared with the measured sizes; distinct by (operation, order of magnitude, "
        "what was said before)")
ASSUMPTIONS = ["the Bag-Size is rounded to four digits; it may include the sizes of directories",
               "files of a bag do not change their size while the operation runs"]
N = {"quick": 1050, "thorough": 5000}
REQUIRED = ["converted", "amended", "restored", "restored_in_place", "split_outputs", "updated_by_hand", "huge",
            "not_updated", "oxums", "bag_sizes", "said_wrong_before", "said_twice_before", "with_hard_links",
            "oxum_said_twice", "twins", "unlisted"]

UNITS = {"B": 1, "kB": 1000, "MB": 10 ** 6, "GB": 10 ** 9, "TB": 10 ** 12}


def measured(bag):
    "bytes in files, bytes in directories, bytes and number of files of the payload"
    total = dirs = pay = n = 0
    with mon.quiet():
        for d, ds, fs in os.walk(bag):
            rel = os.path.relpath(d, bag)
            for f in fs:
                z = os.lstat(os.path.join(d, f)).st_size
                total += z
                if rel == "data" or rel.startswith("data" + os.sep):
                    pay += z
                    n += 1
            for s in ds:
                dirs += os.lstat(os.path.join(d, s)).st_size
    return total, dirs, pay, n


def said(bag):
    with mon.quiet(), open(os.path.join(bag, "bag-info.txt"), encoding="utf-8") as fd:
        return oracle.tag_values(oracle.parse_tags(fd.read()))


def judge(ctx, bag, what, size=True, oxum=True):
    total, dirs, pay, n = measured(bag)
    info = said(bag)
    if oxum:
        ctx.equal(info.get("Payload-Oxum"), ["%d.%d" % (pay, n)], "Payload-Oxum after " + what)
        ctx.count("oxums")
    if size:
        v = info.get("Bag-Size")
        ctx.check(v is not None and len(v) == 1, "Bag-Size after %s: %r" % (what, v))
        m = re.match(r"^(\d+(?:\.\d+)?) ([kMGT]?B)$", v[0])
        ctx.check(m, "Bag-Size after %s: %r" % (what, v[0]))
        z = float(m.group(1)) * UNITS[m.group(2)]
        low, high = total * 0.9994 - 40, (total + dirs) * 1.0006 + 40
        ctx.check(low <= z <= high, "Bag-Size after %s: %r (%d bytes in files)" % (what, v[0], total))
        if m.group(2) != "TB":
            ctx.check(float(m.group(1)) < 1000 or (float(m.group(1)) == 1000 and total <= 1000 * UNITS[m.group(2)]), "Bag-Size after %s: %r" % (what, v[0]))
        ctx.count("bag_sizes")
    ctx.feature(what, len(str(total)))


def before(ctx, rng, spec):
    "what the bag says about its size in the beginning"
    if spec.info is None:
        spec.info = []
    spec.info = [x for x in spec.info if x[0] != "Bag-Size"]
    r = rng.choice(["absent", "wrong", "twice", "wrong"])
    for k in range({"absent": 0, "wrong": 1, "twice": 2}[r]):
        spec.info.insert(rng.randrange(len(spec.info) + 1), ("Bag-Size", rng.choice(["7 TB", "3 B", "about a lot", "12.5 kB"])))
    if r != "absent":
        ctx.count("said_%s_before" % r)
    return r


def case(ctx, i):
    rng = ctx.rng
    WAYS[i % len(WAYS)](ctx, rng)


def source(ctx, rng, **kw):
    s = gen.random_spec(rng, **kw)
    r = before(ctx, rng, s)
    s.files = dict(s.files)
    if rng.random() < 0.5:
        # around the orders of magnitude
        s.files["data/zz filler"] = b"f" * max(0, rng.choice([1000, 10000, 100000, 9999, 99995]) -
                                                rng.choice([0, 100, 700, 1000, 1500]))
    ctx.note(s.describe())
    return s, r


def twins(ctx, rng, bag):
    "several payload files may be hard links to the same"
    if rng.random() < 0.3:
        with mon.quiet():
            ps = []
            for d, ds, fs in os.walk(os.path.join(bag, "data")):
                ps += [os.path.join(d, f) for f in fs]
            if ps:
                src = rng.choice(sorted(ps))
                by = {}
                for k in range(rng.choice([1, 2])):
                    os.link(src, os.path.join(bag, "data", "twin %d" % k))
                    by["data/twin %d" % k] = os.path.relpath(src, bag)
                for m in os.listdir(bag):
                    if re.match(r"^manifest-(md5|sha1|sha224|sha256|sha384|sha512)\.txt$", m):
                        with open(os.path.join(bag, m), encoding="utf-8", newline="\n") as fd:
                            lines = fd.read().split("\n")
                        for t, o in by.items():
                            lines[:0] = [l[:-len(o)] + t for l in lines if l.endswith(" " + o) or l.endswith("*" + o)]
                        with open(os.path.join(bag, m), "w", encoding="utf-8", newline="\n") as fd:
                            fd.write("\n".join(lines))
                ctx.count("twins")
    return bag


def linked(ctx, rng, bag):
    "files of bags may have other hard links"
    if rng.random() < 0.4:
        with mon.quiet():
            shutil.copytree(bag, ctx.path("links"), copy_function=os.link)
        ctx.count("with_hard_links")
    return bag


def converted(ctx, rng):
    s, r = source(ctx, rng)
    p = linked(ctx, rng, gen.write_bag(s, ctx.path(), rng))
    had = "Payload-Oxum" in said(p)
    for k in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            make_single_multibag(p, "1")
        else:
            SingleMultibagMaker(p, rng.choice(["multibag", "mb/x y"])).convert("1.1", "doi:a/b")
        judge(ctx, p, "conversion", oxum=had)
    ctx.feature("conversion", r)
    ctx.count("converted")


def amended(ctx, rng):
    a, r = source(ctx, rng, name="old")
    b, r = source(ctx, rng, name="new")
    p, q = gen.write_bag(a, ctx.path(), rng), linked(ctx, rng, gen.write_bag(b, ctx.path(), rng))
    if rng.random() < 0.7:
        make_single_multibag(p, "1")
    had = "Payload-Oxum" in said(q)
    amend_bag_with(p, q, "2")
    judge(ctx, q, "amendment", oxum=had)
    ctx.feature("amendment", r)
    ctx.count("amended")


def split(ctx, rng):
    s, r = source(ctx, rng)
    if rng.random() < 0.2:
        # said more than once (also if it is the truth)
        pay = [len(s.files[p]) for p in s.payload()]
        s.info = s.info + [("Payload-Oxum", "%d.%d" % (sum(pay), len(pay)))] * 2
        ctx.count("oxum_said_twice")
    p = gen.write_bag(s, ctx.path(), rng)
    had = "Payload-Oxum" in said(p)
    if rng.random() < 0.2:
        # a file that no manifest lists
        with mon.quiet(), open(os.path.join(p, "data", "zz not listed"), "w") as fd:
            fd.write("x" * rng.choice([0, 1, 77]))
        ctx.count("unlisted")
    os.mkdir(ctx.path("out"))
    sp, desc = ops.random_splitter(rng, s, p)
    paths = sp.split(p, ctx.path("out"))
    for o in paths:
        ctx.check("Bag-Size" not in said(o), "an output bag has the Bag-Size of the source")
        judge(ctx, o, "split", size=False, oxum=had)
        ctx.count("split_outputs")
    if rng.random() < 0.7:
        dest = ctx.path("restored")
        upd = rng.random() < 0.8
        BagRestorer(paths[-1], dest).restore(update_sizes=upd)
        if upd:
            judge(ctx, dest, "restoration of a split")
            ctx.count("restored")
        elif r != "absent":
            ctx.equal(said(dest)["Bag-Size"], [v for k, v in s.info if k == "Bag-Size"],
                      "Bag-Size after restoration without update")
            ctx.count("not_updated")


def restored(ctx, rng):
    h = hist.build(ctx, rng.choice([1, 1, 2]), nfiles=(0, 1, 3))
    v = h.versions[-1]
    dest = ctx.path("restored")
    if rng.random() < 0.4 and os.path.isdir(h.paths[v.head]):
        dest = h.paths[v.head]
        BagRestorer(dest, None, h.store).restore()
        ctx.count("restored_in_place")
    else:
        BagRestorer(h.paths[v.head], dest, h.store).restore()
    judge(ctx, dest, "restoration")
    ctx.count("restored")


def by_hand(ctx, rng):
    s, r = source(ctx, rng, nfiles=rng.choice([0, 1, 3]))
    p = gen.write_bag(s, ctx.path(), rng)
    big = rng.random() < 0.7
    if big:
        e = rng.choice([3, 6, 9, 12])
        z = rng.choice([10 ** e, 10 ** e + 10 ** (e - 2), 3333 * 10 ** (e - 3), 12345 * 10 ** e // 10 ** 4, 10 ** e - 1, 10 ** e + 1, 999 * 10 ** e, 1234567 * 10 ** (e - 3),
                        rng.randrange(10 ** e, 10 ** (e + 3)), 9999 * 10 ** e // 10, 99996 * 10 ** e // 100])
        if z < 5 * 10 ** 14:
            with mon.quiet(), open(os.path.join(p, "data", "sparse file"), "wb") as fd:
                fd.truncate(z)
            ctx.count("huge")
    twins(ctx, rng, p)
    b = as_extended(Bag(p)) if rng.random() < 0.5 else None
    if b is None:
        make_single_multibag(p, "1")
        b = HeadBag(p)
    total, dirs, pay, n = measured(p)
    ctx.equal(tuple(b.calc_oxum()), (pay, n), "calc_oxum()")
    if rng.random() < 0.5:
        # nothing is written by asking
        ctx.equal(tuple(b.update_oxum()), (pay, n), "update_oxum()")
        b.save()
    else:
        b.update_oxum()
        b.save()
    total, dirs, pay, n = measured(p)
    z = b.calc_bag_size()
    ctx.check(total - 60 <= z <= total + dirs + 60, "calc_bag_size() gives %r (%d bytes in files)" % (z, total))
    b.update_bag_size()
    b.save()
    judge(ctx, p, "update by hand")
    b = as_extended(Bag(p))
    ctx.equal(b.info.get("Payload-Oxum"), "%d.%d" % (pay, n), "Payload-Oxum that is read")
    ctx.feature("by hand", r, len(str(total)))
    ctx.count("updated_by_hand")


WAYS = [converted, amended, split, restored, by_hand, split]
