"""
P29: restored files keep the time of modification of the copy they come from
"""
import os, shutil, zipfile, tarfile, calendar, time
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *

ID = "P29"
LEVEL = "exploration"
RULE = ("the files of the members of random histories get old, recent, future and fractional times, as directories and "
        "serialized; the times of the restored files are compared with those of the copies that supplied them; "
        "distinct by (kind of time, form of the supplying member, way of restoring)")
ASSUMPTIONS = ["files that the restoration itself writes (bag-info, manifests, fetch.txt) are excepted",
               "times are compared to the resolution of the form: zip 2 s, tar 1 s, directory 1 ms"]
N = {"quick": 400, "thorough": 2500}
REQUIRED = ["times_compared", "from_directory", "from_zip", "from_tar", "old_times", "future_times", "in_place",
            "prefilled", "kept_times"]

KINDS = {"old": lambda r: 315619200 + r.randrange(10 ** 8),
         "recent": lambda r: 1600000000 + r.randrange(10 ** 8),
         "future": lambda r: 2200000000 + r.randrange(10 ** 8),
         "fraction": lambda r: 1500000000 + r.random() * 1000,
         "ancient": lambda r: r.randrange(1, 10 ** 7),
         "epoch": lambda r: 0,
         "before1970": lambda r: -r.randrange(1, 10 ** 9)}


def archive_times(path):
    "{path in the bag: time} of a serialized bag"
    out = {}
    if path.endswith(".zip"):
        with zipfile.ZipFile(path) as z:
            for e in z.infolist():
                if not e.filename.endswith("/"):
                    out[e.filename.split("/", 1)[1]] = calendar.timegm(e.date_time + (0, 0, 0))
    else:
        with tarfile.open(path) as z:
            for e in z:
                if e.isfile():
                    out[e.name.split("/", 1)[1]] = e.mtime
    return out


def stamp(ctx, rng, bag):
    "give each file a time; return {path: (time, kind)}"
    out = {}
    one = rng.choice([None, None] + sorted(KINDS))
    with mon.quiet():
        for d, sub, files in os.walk(bag):
            for f in files:
                k = one or rng.choice(sorted(KINDS))
                t = KINDS[k](rng)
                p = os.path.join(d, f)
                os.utime(p, (rng.randrange(10 ** 9), t))
                out[os.path.relpath(p, bag)] = (os.stat(p).st_mtime, k)
    return out


def case(ctx, i):
    rng = ctx.rng
    os.environ["TZ"] = rng.choice(["UTC", "America/New_York", "XYZ-11:30", "ABC5DEF"])
    time.tzset()
    try:
        run(ctx, rng)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()


def run(ctx, rng):
    h = hist.build(ctx, nver=rng.choice([0, 1, 1, 2]), forms=False)
    v = h.versions[-1]
    if v.version is None:
        h.amend()
        v = h.versions[-1]
    times, forms = {}, {}
    way = rng.choice(["new", "new", "new", "inplace", "prefilled"])
    for n in v.names():
        bag = h.paths[n]
        st = stamp(ctx, rng, bag)
        forms[n] = "dir"
        times[n] = {p: t for p, (t, k) in st.items()}
        if rng.random() < 0.6 and not (way == "inplace" and n == v.head):
            form = rng.choice(gen.FORMS)
            with mon.quiet():
                ar = gen.serialize(bag, bag, form, rng.choice(["all", "needed"]), rng)
                shutil.rmtree(bag)
            h.paths[n] = ar
            times[n] = archive_times(ar)
            forms[n] = "zip" if form == ".zip" else "tar"
        for p in times[n]:
            ctx.feature(st[p][1], forms[n], way)
            if st[p][1] == "future":
                ctx.count("future_times")
            elif st[p][1] in ("epoch", "before1970") and forms[n] == "dir":
                ctx.count("times_up_to_1970")
            elif st[p][1] in ("old", "ancient"):
                ctx.count("old_times")
    files, dirs = h.expected(v)
    head = h.paths[v.head]
    dest = ctx.path("dest")
    kept = {}
    if way == "inplace":
        dest = head
        BagRestorer(head).restore()
        ctx.count("in_place")
    elif way == "prefilled":
        BagRestorer(head, dest, h.store).restore()
        cands = sorted(files)
        for p in rng.sample(cands, len(cands) // 2):
            with mon.quiet():
                os.remove(os.path.join(dest, p))
        for p in cands:
            fp = os.path.join(dest, p)
            if os.path.exists(fp) and rng.random() < 0.5:
                os.utime(fp, (1, 1234567890))
                kept[p] = 1234567890
        BagRestorer(head, dest, h.store).restore()
        ctx.count("prefilled")
    else:
        restore_bag(head, dest)
    for p in files:
        if oracle.is_special(p):
            continue
        n = files[p][1]
        got = os.stat(os.path.join(dest, p)).st_mtime
        if p in kept:
            ctx.equal(got, kept[p], "time of %r, which was there already" % p)
            ctx.count("kept_times")
            continue
        want = times[n][p]
        tol = {"zip": 2, "tar": 1, "dir": 0.001}[forms[n]]
        ctx.check(abs(got - want) <= tol, "%r has time %r, not %r as in member %r (%s, %s)"
                  % (p, got, want, n, forms[n], way))
        ctx.count("times_compared")
        ctx.count({"zip": "from_zip", "tar": "from_tar", "dir": "from_directory"}[forms[n]])
    ctx.sample({"forms": forms, "way": way, "steps": h.kinds})
