"""
P14: validating a bag accepts every valid bag and reports every corruption
"""
import os, re, hashlib, unicodedata
from vlib import gen, oracle, mon, ops
from vlib.ops import *
from multibag import BagError, HeadBagValidator, MemberBagValidator
from multibag.validate import BagValidator

ID = "P14"
LEVEL = "exploration"
RULE = ("a random valid bag is changed on disk in one way (or a harmless one, or not at all) and "
        "validated as a directory and in serialized forms, in full, for completeness, fast, with "
        "several processes, and by the validators; the answers are compared with an independent "
        "judgement; distinct by (change, form, way of validating)")
ASSUMPTIONS = ["a bag whose declaration or manifests cannot be read may already be refused when opened"]
N = {"quick": 1080, "thorough": 6000}
REQUIRED = ["valid_accepted", "corruption_reported", "benign_accepted", "serialized", "fast_passes",
            "complete_passes", "old_bagit_versions", "empty_payloads"]


def case(ctx, i):
    rng = ctx.rng
    spec = gen.random_spec(rng, nfiles=rng.choice([1, 2, 3, 5, 8]), big=(i % 5 == 0))
    if rng.random() < 0.12:
        spec.version = rng.choice(gen.OLD)
        ctx.count("old_bagit_versions")
    if rng.random() < 0.1:
        for p in spec.payload():
            spec.files[p] = b""
        ctx.count("empty_payloads")
    large = i % 30 == 8
    if large:
        n = rng.choice([524288, 524289, 600000, 1048576, 1048577, 1500000])
        spec.files["data/large.bin"] = gen.content(rng, n)
        ctx.count("large_files")
    bag = gen.write_bag(spec, ctx.path(), rng)
    head = rng.random() < 0.25 and spec.version not in gen.OLD
    if head:
        make_single_multibag(bag, "1")
    names = sorted(BENIGN if i % 3 == 0 else CORRUPT)
    if large:
        kind = "flip"
        with mon.quiet():
            done = flip(rng, bag, spec, "data/large.bin", rng.choice([n - 1, n - 2, n // 2, 524287, n - 4096]))
    elif i % 24 == 1:
        kind = "none"
        done = True
    else:
        for _ in range(20):
            kind = rng.choice(names)
            with mon.quiet():
                done = (BENIGN.get(kind) or CORRUPT[kind])(rng, bag, spec)
            if done:
                break
        else:
            kind, done = "none", True
    ctx.note([kind, done, spec.describe()])
    tree = oracle.read_tree(bag)
    bad = kind in CORRUPT
    # the oracle must agree with the label of the change
    try:
        probs = judge(tree)
    except Exception as ex:
        probs = ["cannot be read"]
    if bool(probs) != bad and kind not in ("unicode", "manbom", "dup"):
        raise RuntimeError("harness: %s %s: %s" % (kind, done, probs))
    how = done if isinstance(done, dict) else {}
    forms = [""] + rng.sample(gen.FORMS, rng.choice([1, 1, 2]))
    if how.get("nodir"):
        forms = [""]
    for form in forms:
        p = bag
        if form:
            p = gen.serialize(bag, ctx.path("ar_" + spec.name), form,
                              rng.choice(["all", "needed"]), rng)
            ctx.count("serialized")
        judge_one(ctx, rng, kind, how, p, form, bad, tree, head)
    ctx.sample({"change": kind, "forms": forms, "bag": spec.describe()["files"]})


def judge(tree):
    probs = oracle.bag_problems(tree)
    if not probs and not re.match(r"^(0\.9[3-7]|1\.0)$", dict(oracle.parse_tags(
            tree.files["bagit.txt"].decode("utf-8")))["BagIt-Version"]):
        probs = ["bad version"]
    v = dict(oracle.parse_tags(tree.files.get("bagit.txt", b"").decode("utf-8-sig"))).get(
        "Tag-File-Character-Encoding")
    if v and v.upper() != "UTF-8":
        probs.append("encoding")
    return probs


def judge_one(ctx, rng, kind, how, p, form, bad, tree, head):
    what = "%s%s" % (kind, form and " (%s)" % form)
    try:
        bag = open_bag(p)
    except (BagError, ValueError, OSError) as ex:
        ctx.check(bad, "a valid bag cannot be opened: %s: %s" % (what, ex))
        ctx.count("corruption_reported")
        ctx.feature(kind, form, "open")
        return
    if form and rng.random() < 0.5:
        bag = as_extended(bag)

    for way in rng.sample(["validate", "is_valid", "procs", "fast", "complete", "vbag", "vhead",
                           "vmember"], 5) + ["validate"]:
        err = None
        try:
            if way == "validate":
                bag.validate()
            elif way == "is_valid":
                if bag.is_valid() is not True:
                    err = "False"
            elif way == "procs":
                bag.validate(processes=2)
            elif way == "fast":
                bag.validate(fast=True)
            elif way == "complete":
                bag.validate(completeness_only=True)
            else:
                V = {"vbag": BagValidator, "vhead": HeadBagValidator,
                     "vmember": MemberBagValidator}[way]
                res = V(p).validate(7)
                f = [x for x in res.failed(1) if "BagIt" in x.specification
                     or x.label.startswith("2-Bag")]
                err = f and str(f[0]) or None
                if way == "vmember" and not head:
                    ctx.equal(bool(res.failed(1)), bool(f), "errors of a member bag")
                if way == "vbag":
                    ctx.equal(V(p).is_valid(), err is None, "is_valid() (%s)" % what)
        except BagError as ex:
            err = str(ex) or "error"
            ctx.check(not way.startswith("v") or way == "validate",
                      "%s: validation did not return: %s" % (what, ex))
        want = bad
        if way == "fast":
            has = "Payload-Oxum" in oracle.info_of(tree)
            if not has:
                want = True
            elif how.get("fastok"):
                want = False
            ctx.count("fast_passes" if not want else "fast_fails")
        elif way == "complete":
            if how.get("completeok"):
                want = False
            ctx.count("complete_passes" if not want else "complete_fails")
        ctx.feature(kind, form, way)
        if want:
            ctx.check(err is not None, "%s: not reported by %s" % (what, way))
            ctx.count("corruption_reported" if bad else "fast_refused")
        else:
            ctx.check(err is None, "%s: a valid bag is rejected by %s: %s" % (what, way, err))
            ctx.count("valid_accepted" if kind == "none" else "benign_accepted")


# ------------------------------------------------------------------ changes

def rd(bag, p):
    with open(os.path.join(bag, p), "rb") as fd:
        return fd.read()

def wr(bag, p, data):
    fp = os.path.join(bag, p)
    os.makedirs(os.path.dirname(fp), exist_ok=True)
    if os.path.exists(fp):
        os.remove(fp)
    with open(fp, "wb") as fd:
        fd.write(data)

def payload(spec, nonempty=False):
    return sorted(p for p in spec.payload() if spec.files[p] or not nonempty)

def manifs(bag, pre="manifest-"):
    return sorted(f for f in os.listdir(bag) if f.startswith(pre) and oracle.MANIF.match(f))

def retag(bag):
    "bring the tag manifests up to date, so that there is only the one problem"
    for m in manifs(bag, "tagmanifest-"):
        alg = oracle.MANIF.match(m).group(2)
        ents, bad = oracle.parse_manifest(rd(bag, m))
        out = ""
        for p in ents:
            if os.path.isfile(os.path.join(bag, p)):
                out += "%s %s\n" % (hashlib.new(alg, rd(bag, p)).hexdigest(), p)
        wr(bag, m, out.encode("utf-8"))

def infof(bag):
    return oracle.info_file(oracle.read_tree(bag))

def reoxum(bag):
    f = infof(bag)
    p = os.path.join(bag, f)
    if os.path.exists(p):
        t = oracle.read_tree(bag)
        d = rd(bag, f)
        d = re.sub(rb"Payload-Oxum: .*", ("Payload-Oxum: %d.%d" % oracle.payload_oxum(t)).encode(), d)
        wr(bag, f, d)


def flip(rng, bag, spec, p=None, k=None):
    fs = payload(spec, True)
    if not fs:
        return False
    p = p or rng.choice(fs)
    d = bytearray(rd(bag, p))
    if k is None:
        k = rng.choice([0, len(d) - 1, rng.randrange(len(d))])
    d[k] ^= 1 << rng.randrange(8)
    wr(bag, p, bytes(d))
    return {"fastok": True, "completeok": True}

def swap(rng, bag, spec):
    fs = payload(spec, True)
    for a in fs:
        for b in fs:
            if a < b and spec.files[a] != spec.files[b]:
                da, db = rd(bag, a), rd(bag, b)
                wr(bag, a, db)
                wr(bag, b, da)
                return {"fastok": True, "completeok": True}
    return False

def resize(rng, bag, spec):
    fs = payload(spec, True)
    if not fs:
        return False
    p = rng.choice(fs)
    d = rd(bag, p)
    d = d[:-1] if rng.random() < 0.5 else d + b"\0"
    wr(bag, p, d)
    has = "Payload-Oxum" in oracle.info_of(oracle.read_tree(bag))
    if rng.random() < 0.5:
        reoxum(bag)
        retag(bag)
        has = False
    return {"completeok": not has, "fastok": not has}

def delete(rng, bag, spec):
    fs = payload(spec)
    if not fs:
        return False
    os.remove(os.path.join(bag, rng.choice(fs)))
    if rng.random() < 0.5:
        reoxum(bag)
        retag(bag)
        return {"fastok": True}
    return True

def rename(rng, bag, spec):
    fs = payload(spec)
    if not fs:
        return False
    p = rng.choice(fs)
    os.rename(os.path.join(bag, p), os.path.join(bag, p + ".x"))
    return {"fastok": True}

def add(rng, bag, spec):
    p = rng.choice(["data/zz new", "data/zz/new", "data/.hid", "data/_x", "data/\u00e9\u00e9", "data/.d/x"])
    if os.path.exists(os.path.join(bag, p)) or p in ("data/zz/new",) and os.path.exists(
            os.path.join(bag, "data/zz")):
        return False
    wr(bag, p, rng.choice([b"", b"x"]))
    if rng.random() < 0.5:
        reoxum(bag)
        retag(bag)
        return {"fastok": True}
    return True

def badhash(rng, bag, spec):
    m = rng.choice(manifs(bag))
    d = rd(bag, m)
    lines = [x for x in d.split(b"\n") if x]
    if not lines:
        return False
    k = rng.randrange(len(lines))
    x = lines[k]
    n = len(x.split()[0])
    j = rng.choice([0, n - 1, rng.randrange(n)])
    c = b"0" if x[j:j + 1] != b"0" else b"1"
    lines[k] = x[:j] + c + x[j + 1:] if rng.random() < 0.7 else rng.choice([x[1:], x[:n - 1] + x[n:]])
    wr(bag, m, b"\n".join(lines) + b"\n")
    retag(bag)
    return {"fastok": True, "completeok": True}

def unlist(rng, bag, spec):
    fs = payload(spec)
    if not fs:
        return False
    p = rng.choice(fs)
    for m in manifs(bag):
        lines = [x for x in rd(bag, m).decode("utf-8").split("\n") if x]
        keep = [x for x in lines if re.split(r"[ \t]+\*?", x, maxsplit=1)[1] != p]
        wr(bag, m, "".join(x + "\n" for x in keep).encode("utf-8"))
    retag(bag)
    return {"fastok": True}

def list_extra(rng, bag, spec):
    m = rng.choice(manifs(bag))
    alg = oracle.MANIF.match(m).group(2)
    d = rd(bag, m)
    wr(bag, m, d + ("%s data/not there\n" % hashlib.new(alg, b"").hexdigest()).encode())
    retag(bag)
    return {"fastok": True}

def conflict(rng, bag, spec):
    fs = payload(spec, True)
    if not fs:
        return False
    m = rng.choice(manifs(bag))
    alg = oracle.MANIF.match(m).group(2)
    wr(bag, m, rd(bag, m) + ("%s %s\n" % (hashlib.new(alg, b"other").hexdigest(),
                                          rng.choice(fs))).encode("utf-8"))
    retag(bag)
    return True

def tagfile(rng, bag, spec):
    "change or remove a tag file that is in a tag manifest"
    if spec.version < "0.97":
        return False    # (these are not looked at)
    tm = manifs(bag, "tagmanifest-")
    ents = set()
    for m in tm:
        ents |= set(oracle.parse_manifest(rd(bag, m))[0])
    ents = sorted(e for e in ents if e != "bagit.txt" and not e.startswith("manifest-"))
    if not ents:
        return False
    p = rng.choice(ents)
    if rng.random() < 0.5:
        os.remove(os.path.join(bag, p))
        if p != "bag-info.txt" and rng.random() < 0.4:
            # what is there by that name is not a file
            os.mkdir(os.path.join(bag, p))
        return {"fastok": p != "bag-info.txt"}
    d = rd(bag, p)
    wr(bag, p, d + b"X-More: 1\n")
    return {"fastok": True, "completeok": True}

def no_bagit(rng, bag, spec):
    os.remove(os.path.join(bag, "bagit.txt"))
    retag(bag)
    return True

def bad_bagit(rng, bag, spec):
    t = rng.choice([b"BagIt-Version: 0.97\n", b"Tag-File-Character-Encoding: UTF-8\n",
                    b"BagIt-Version: x.y\nTag-File-Character-Encoding: UTF-8\n",
                    b"BagIt-Version: 7.0\nTag-File-Character-Encoding: UTF-8\n",
                    b"BagIt-Version: 0.97\nTag-File-Character-Encoding: nosuch\n",
                    b"", b"not a tag file\n"])
    wr(bag, "bagit.txt", t)
    retag(bag)
    return True

def bom(rng, bag, spec):
    wr(bag, "bagit.txt", b"\xef\xbb\xbf" + rd(bag, "bagit.txt"))
    retag(bag)
    return True

def oxum(rng, bag, spec):
    f = infof(bag)
    if not os.path.exists(os.path.join(bag, f)):
        return False
    b, n = oracle.payload_oxum(oracle.read_tree(bag))
    v = rng.choice(["%d.%d" % (b + 1, n), "%d.%d" % (b, n + 1), "%d.%d" % (n, b) if n != b else "9.9.9",
                    "%d" % b, "x.y", "%d." % b, ".%d" % n, "%d.%d.1" % (b, n), "%d,%d" % (b, n),
                    "-%d.%d" % (b + 1, n), "0.0" if n else "1.0", "0.0" if n else "0.1", "0.0" if n else "2.1", "0.%d" % n if b else "%d.0" % (b + 7)])
    d = rd(bag, f).decode("utf-8")
    d = re.sub(r"(?m)^Payload-Oxum: .*\n", "", d) + "Payload-Oxum: %s\n" % v
    if rng.random() < 0.3:
        # only the first one counts
        d += "Payload-Oxum: %d.%d\n" % (b, n)
    wr(bag, f, d.encode("utf-8"))
    retag(bag)
    return True

def dup_same(rng, bag, spec):
    "a file listed twice is an error from BagIt 1.0 on"
    if spec.version != "1.0" or not payload(spec):
        return False
    m = rng.choice(manifs(bag))
    lines = rd(bag, m).splitlines(True)
    lines.insert(rng.randrange(len(lines) + 1), rng.choice(lines))
    wr(bag, m, b"".join(lines))
    retag(bag)
    return True

def nopath(rng, bag, spec):
    "a line has only the hash"
    fs = payload(spec)
    if not fs:
        return False
    p = rng.choice(fs)
    for m in manifs(bag):
        out = ""
        for x in rd(bag, m).decode("utf-8").split("\n"):
            if x:
                h, q = re.split(r"[ \t]+\*?", x, maxsplit=1)
                out += (h if q == p else x) + "\n"
        wr(bag, m, out.encode("utf-8"))
    retag(bag)
    return {"fastok": True}

def unsafe(rng, bag, spec):
    "a path that could lead out of the bag"
    m = rng.choice(manifs(bag) + (manifs(bag, "tagmanifest-") if spec.version >= "0.97" else []))
    q = rng.choice(["/etc/hostname", "../" + spec.name + "/bagit.txt", "~/x", "$HOME/x", "data/../../x",
                    os.path.join(bag, "bagit.txt")])
    alg = oracle.MANIF.match(m).group(2)
    wr(bag, m, rd(bag, m) + ("%s %s\n" % (hashlib.new(alg, rd(bag, "bagit.txt")).hexdigest(), q)).encode("utf-8"))
    if not m.startswith("tag"):
        retag(bag)
    return {"unsafe": True}

def no_manifest(rng, bag, spec):
    for m in manifs(bag):
        os.remove(os.path.join(bag, m))
    retag(bag)
    return True

def no_data(rng, bag, spec):
    import shutil
    shutil.rmtree(os.path.join(bag, "data"))
    for m in manifs(bag):
        wr(bag, m, b"")
    reoxum(bag)
    retag(bag)
    return True

def file_to_dir(rng, bag, spec):
    fs = payload(spec)
    if not fs:
        return False
    p = os.path.join(bag, rng.choice(fs))
    os.remove(p)
    os.mkdir(p)
    return True

CORRUPT = dict(flip=flip, swap=swap, resize=resize, delete=delete, rename=rename, add=add,
               badhash=badhash, unlist=unlist, list_extra=list_extra, conflict=conflict,
               tagfile=tagfile, no_bagit=no_bagit, bad_bagit=bad_bagit, bom=bom, oxum=oxum,
               no_manifest=no_manifest, no_data=no_data, file_to_dir=file_to_dir,
               dup_same=dup_same, nopath=nopath, unsafe=unsafe)


def b_crlf(rng, bag, spec):
    for m in manifs(bag) + (manifs(bag, "tagmanifest-") if rng.random() < 0.5 else []):
        wr(bag, m, rd(bag, m).replace(b"\n", b"\r\n"))
    return retag(bag) or True

def b_star(rng, bag, spec):
    for m in manifs(bag):
        wr(bag, m, re.sub(rb"(?m)^([0-9A-Fa-f]+) +", rb"\1 *", rd(bag, m)))
    return retag(bag) or True

def b_upper(rng, bag, spec):
    for m in manifs(bag):
        wr(bag, m, re.sub(rb"(?m)^([0-9A-Fa-f]+)", lambda x: x.group(1).upper(), rd(bag, m)))
    return retag(bag) or True

def b_comment(rng, bag, spec):
    m = rng.choice(manifs(bag))
    wr(bag, m, b"# a comment\n\n" + rd(bag, m) + b"\n")
    return retag(bag) or True

def b_tab(rng, bag, spec):
    for m in manifs(bag):
        wr(bag, m, re.sub(rb"(?m)^([0-9A-Fa-f]+) +", b"\\1\t", rd(bag, m)))
    return retag(bag) or True

def b_noinfo(rng, bag, spec):
    p = os.path.join(bag, infof(bag))
    if os.path.exists(p):
        os.remove(p)
    return retag(bag) or True

def b_oxums(rng, bag, spec):
    "only the first one counts"
    f = infof(bag)
    if not os.path.exists(os.path.join(bag, f)):
        return False
    b, n = oracle.payload_oxum(oracle.read_tree(bag))
    d = re.sub(r"(?m)^Payload-Oxum: .*\n", "", rd(bag, f).decode("utf-8"))
    wr(bag, f, (d + "Payload-Oxum: %d.%d\nPayload-Oxum: %d.%d\n" % (b, n, b + 1, n)).encode("utf-8"))
    return retag(bag) or True

def b_manbom(rng, bag, spec):
    m = rng.choice(manifs(bag))
    wr(bag, m, b"\xef\xbb\xbf" + rd(bag, m))
    return retag(bag) or True

def b_dup(rng, bag, spec):
    "a file listed twice (before BagIt 1.0)"
    if spec.version == "1.0" or not payload(spec):
        return False
    m = rng.choice(manifs(bag))
    lines = rd(bag, m).splitlines(True)
    lines.insert(rng.randrange(len(lines) + 1), rng.choice(lines))
    wr(bag, m, b"".join(lines))
    return retag(bag) or {"dup": True}

def b_stray(rng, bag, spec):
    "metadata that looks like other things"
    f = infof(bag)
    other = "package-info.txt" if f == "bag-info.txt" else "bag-info.txt"
    wr(bag, other, b"Payload-Oxum: 1.99\n")
    return retag(bag) or True

def b_tagfile(rng, bag, spec):
    wr(bag, rng.choice(["zz.txt", "zz meta/x", ".zz"]), b"extra")
    return True

def b_emptydir(rng, bag, spec):
    os.makedirs(os.path.join(bag, rng.choice(["data/zz empty", "zz empty/x"])))
    return True

def b_notagman(rng, bag, spec):
    for m in manifs(bag, "tagmanifest-"):
        os.remove(os.path.join(bag, m))
    return True

def b_order(rng, bag, spec):
    for m in manifs(bag):
        lines = rd(bag, m).splitlines(True)
        rng.shuffle(lines)
        wr(bag, m, b"".join(lines))
    return retag(bag) or True

def b_partial(rng, bag, spec):
    "files need not be in all of the manifests (before BagIt 1.0)"
    ms = manifs(bag)
    if len(ms) < 2 or spec.version == "1.0":
        return False
    lines = rd(bag, ms[0]).splitlines(True)
    wr(bag, ms[0], b"".join(lines[1:]))
    return retag(bag) or True

def b_touch(rng, bag, spec):
    for p in payload(spec):
        os.utime(os.path.join(bag, p), (1, 1))
    return True

def b_dot(rng, bag, spec):
    m = rng.choice(manifs(bag))
    wr(bag, m, re.sub(rb"(?m)^([0-9A-Fa-f]+ +)data/", rb"\1./data/", rd(bag, m)))
    return retag(bag) or True

def b_unicode(rng, bag, spec):
    "the names were normalized by a file system after the manifest was written"
    fs = [p for p in payload(spec) if unicodedata.normalize("NFD", p) != p
          and unicodedata.normalize("NFC", p) == p
          and os.path.dirname(p) == unicodedata.normalize("NFD", os.path.dirname(p))]
    if not fs:
        return False
    for p in fs:
        os.rename(os.path.join(bag, p), os.path.join(bag, unicodedata.normalize("NFD", p)))
    return {"renamed": True}

BENIGN = dict(crlf=b_crlf, star=b_star, upper=b_upper, comment=b_comment, tab=b_tab,
              noinfo=b_noinfo, tagfile_unlisted=b_tagfile, emptydir=b_emptydir,
              notagman=b_notagman, order=b_order, partial=b_partial, touch=b_touch, dot=b_dot, unicode=b_unicode,
              oxums=b_oxums, manbom=b_manbom, dup=b_dup, stray=b_stray)
