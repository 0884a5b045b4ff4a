"""
Generators of workloads: bags with hostile but legal content, written without
the code under test, and serialized in the supported forms.
"""
import os, io, hashlib, zipfile, tarfile, unicodedata, time, string

from . import mon
from .oracle import is_special

ALGS = ["md5", "sha1", "sha256", "sha512"]
MORE_ALGS = ALGS + ["sha224", "sha384"]

PLAIN = ["a", "b", "c", "sub", "trial1", "img.png", "readme.txt", "x.dat", "notes"]
HOSTILE = [
    "bagit.txt", "bag-info.txt", "fetch.txt", "manifest-md5.txt", "manifest-x.txt",
    "tagmanifest-sha256.txt", "bagitXtxt", "manifest-md5Xtxt", "mymanifest-md5.txt",
    "bagit.txt.bak", "oldbagit.txt",
    "data", "multibag", "metadata", "data2", "datafile",
    "sub", "sub2", "subx", "sub.d", "su",
    "two words", "double  space", "t r e e", "a#b", "#hash", "# comment", "%20", "100%25",
    "x%41", "q?x=1", "bang!", "user@host", "a:b", "co,mma", "semi;colon", "eq=ual",
    "'quote'", '"dquote"', "back\\slash", "star*", "[br]{ack}", "pipe|<>", "amp&",
    "{0}", "%s", "+plus", "-dash", "--", "_under", ".hidden", "..dots", "...", "x.zip",
    "x.tar.gz", "b.mbag", "caf\u00e9", unicodedata.normalize("NFD", "re\u0301sume\u0301"),
    "\u65e5\u672c\u8a9e", "\u0645\u0631", "\U0001f600", "\u00df", "\u0130I\u0131",
    "nb\u00a0sp", "CASE", "case", "Case",
    "L" * 120, "member-bags.tsv", "file-lookup.tsv", "deleted.txt", "aggregation-info.txt",
    "_membercache", "0", "00", "1.0", "~tilde", "a~",
    ".gitkeep", ".DS_Store", "Thumbs.db", "x.tmp", "x.bak", "fetch.txt~", "__pycache__", ".git", "core", "x.lock",
    "x.txt.part", ".nfs0001",
]
TAGNAMES = [
    "metadata", "meta", "datafile", "data2", "data.txt", "bagitXtxt", "extra.txt",
    "mymanifest-md5.txt", "manifest-md5.txt.bak", "xbag-info.txt", "bag-info.txt.old",
    "notes and more", "\u03bcmeta", "license", "multibagged", "multi", "about",
    "oldfetch.txt", "b.mbag", "%20", "a#b", "#x", "_under", ".hidden",
    ".gitkeep", ".DS_Store", "x.tmp", "x.bak", "readme.md",
]
BAGNAMES = ["bag", "my bag", "b.mbag", "x.zip", "caf\u00e9bag", "bag#1", "#bag", "b%20g",
            "a.b.c", "data", "multibag", "b?x", "it's", "v1,2", "UPPER", "bag@x", "q!z",
            "_bag", ".bag", "bag_1.mbag", "\u65e5\u672c", "{0}", "a&b", "-bag"]

INFO_POOL = [
    ("Contact-Name", ["Ray P", "\u00c9lan V", "a: b: c", "N. N."]),
    ("Contact-Email", ["x@example.org"]),
    ("External-Description", ["plain text", "first line\n   second line\n\tthird",
                              "\u00e9t\u00e9 ; # not a comment"]),
    ("External-Identifier", ["ark:/88434/mds00hw91v", "doi:10.1/x y", "id,with,commas"]),
    ("Internal-Sender-Identifier", ["mds2-1", "id 2"]),
    ("Internal-Sender-Description", ["a bag", "long\n  folded\n  text"]),
    ("Bagging-Date", ["2018-01-02"]),
    ("Bag-Count", ["1 of 3", "2 of ?"]),
    ("Bag-Size", ["12 kB", "1.2 MB"]),
    ("Source-Organization", ["NIST", "Org & Sons"]),
    ("Bag-Group-Identifier", ["group1"]),
    ("X-Custom", ["1", "0", "yes", "http://x.y/z?q=1#f"]),
    ("X-Multibag-Like", ["v"]),
    ("x-lower", ["v"]),
    ("Bag-Producing-Organization", ["Org", "Org 2"]),
    ("BagIt-Profile-Identifier", ["https://example.org/profile.json"]),
    ("Payload-Note", ["n"]),
    ("Multiple", ["m", "m"]),
    ("Z", ["z"]),
    ("Bag-Creator", ["someone"]),
    ("Bag-Sizes", ["1, 2"]),
    ("Multibag-Source-Bag-Size", ["77 kB"]),
    ("Multibag-Source-Note", ["n", "o"]),
]


class Spec(object):
    "the content of a bag to write"
    def __init__(self):
        self.name = "bag"
        self.files = {}      # payload and other tag files: path -> bytes
        self.empty = []      # empty directories
        self.info = None     # [(name, value)] or None for no bag-info.txt
        self.algs = ["sha256"]
        self.tagalgs = []    # tagmanifests to write
        self.version = "0.97"
        self.upper = False
        self.extra_raw = {}  # special files to write verbatim (fetch.txt ...)
        self.oxum = True
        self.partial_tagman = False
        self.crlf = False
        self.encoding = "UTF-8"
        self.mansep = " "
        self.fetch = {}      # files yet to be fetched: path -> (url, size, content)

    def payload(self):
        return [p for p in self.files if p.startswith("data/")]

    def describe(self):
        return {"name": self.name, "files": {p: len(d) for p, d in self.files.items()},
                "empty_dirs": list(self.empty), "algs": self.algs,
                "tagalgs": self.tagalgs, "bagit": self.version,
                "info": self.info}


def norm(path):
    return unicodedata.normalize("NFC", path)


def content(rng, size):
    if size < 40:
        return bytes(rng.randrange(256) for i in range(size))
    # (a period that no power of two divides, so that shifted blocks are seen)
    head = bytes(rng.randrange(256) for i in range(37))
    return (head * (size // 37 + 1))[:size]


def size(rng, big=False):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.2:
        return 1
    if r < 0.6:
        return rng.choice([2, 10, 50, 99, 100, 100, 101, 250])
    if r < 0.93:
        return rng.randrange(1, 3000)
    if r < 0.985 or not big:
        return rng.choice([5000, 20000, 70001])
    return rng.choice([1048576, 1048577, 2100000])


class Namer(object):
    "makes paths that are distinct, and consistent as to what is a directory"
    def __init__(self, rng, hostile=0.5):
        self.rng = rng
        self.hostile = hostile
        self.files = {}      # normalized -> path
        self.dirs = {}

    def comp(self):
        r = self.rng
        if r.random() < self.hostile:
            return r.choice(HOSTILE)
        return r.choice(PLAIN)

    def ok_file(self, p):
        n = norm(p)
        if n in self.files or n in self.dirs:
            return False
        return self._parents_ok(p)

    def _parents_ok(self, p):
        d = p
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            n = norm(d)
            if n in self.files or self.dirs.get(n, d) != d:
                return False
        return True

    def ok_dir(self, p):
        n = norm(p)
        if n in self.files or self.dirs.get(n, p) != p:
            return False
        return self._parents_ok(p)

    def add_file(self, p):
        self.files[norm(p)] = p
        self._add_parents(p)

    def _add_parents(self, p):
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            self.dirs[norm(p)] = p

    def add_dir(self, p):
        self.dirs[norm(p)] = p
        self._add_parents(p)

    def payload(self):
        for _ in range(40):
            depth = self.rng.choice([1, 1, 1, 2, 2, 3, 4] * 5 + [9, 14])
            known = [d for d in self.dirs.values() if d.startswith("data/")]
            if known and self.rng.random() < 0.45:
                p = self.rng.choice(known) + "/" + self.comp()
            else:
                p = "/".join(["data"] + [self.comp() for i in range(depth)])
            if len(p) < 700 and self.ok_file(p):
                return p
        i = 0
        while not self.ok_file("data/u%d" % i):
            i += 1
        return "data/u%d" % i

    def tag(self):
        for _ in range(40):
            r = self.rng
            base = r.choice(TAGNAMES)
            p = base if r.random() < 0.5 else base + "/" + self.comp()
            if r.random() < 0.15:
                p += "/" + self.comp()
            if "/" not in p and is_special(p):
                continue
            if p.split("/")[0] in ("data", "multibag"):
                continue
            if self.ok_file(p):
                return p
        return None


def random_info(rng, rich=0.8):
    if rng.random() > rich:
        return [("Contact-Name", "x")] if rng.random() < 0.5 else []
    out = []
    pool = list(INFO_POOL)
    rng.shuffle(pool)
    for name, vals in pool[:rng.randrange(1, len(pool) + 1)]:
        vals = list(vals)
        rng.shuffle(vals)
        nrep = 1 if name in ("Bag-Size", "Bag-Count", "Bagging-Date") else \
            rng.choice([1, 1, 1, 2, 3])
        for v in vals[:nrep]:
            out.append((name, v))
    return out


def random_spec(rng, nfiles=None, hostile=None, name=None, info=True, tags=True,
                empties=True, big=False, nm=None, reuse=()):
    """
    :param Namer nm:   a namer that is shared by the bags of an aggregation
    :param reuse:      paths of other bags to provide new versions of
    """
    s = Spec()
    if hostile is None:
        hostile = rng.choice([0.0, 0.3, 0.7, 0.95])
    s.name = name or rng.choice(BAGNAMES)
    if nm is None:
        nm = Namer(rng, hostile)
    for p in reuse:
        s.files[p] = content(rng, size(rng, big))
    if nfiles is None:
        nfiles = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
    equal = rng.random() < 0.15
    eqsz = rng.choice([0, 1, 100])
    for i in range(nfiles):
        p = nm.payload()
        nm.add_file(p)
        s.files[p] = content(rng, eqsz if equal else size(rng, big))
    if tags:
        for i in range(rng.choice([0, 0, 1, 2, 4])):
            p = nm.tag()
            if p:
                nm.add_file(p)
                s.files[p] = content(rng, size(rng))
    if empties and rng.random() < 0.5:
        for i in range(rng.choice([1, 1, 2, 3])):
            base = "data" if rng.random() < 0.75 else rng.choice(["metadata", "etags"])
            if rng.random() < 0.4:
                known = sorted(d for d in nm.dirs.values()
                               if d == "data" or d.startswith("data/"))
                if known:
                    base = rng.choice(known)
            p = base + "/" + "/".join(nm.comp() for i in range(rng.choice([1, 1, 2])))
            if norm(p) not in nm.dirs and nm.ok_dir(p):
                nm.add_dir(p)
                s.empty.append(p)
    s.algs = rng.sample(ALGS, rng.choice([1, 1, 1, 2, 3])) if rng.random() > 0.06 else \
        rng.sample(MORE_ALGS, rng.choice([2, 4, 5, 6]))
    r = rng.random()
    s.tagalgs = list(s.algs) if r < 0.6 else ([] if r < 0.85 else [rng.choice(ALGS)])
    s.version = rng.choice(["0.97", "0.97", "0.97", "0.97", "1.0", "1.0", "0.96"])
    s.upper = rng.random() < 0.1
    s.partial_tagman = rng.random() < 0.3
    s.mansep = rng.choice([" ", "  ", "  ", " "])
    s.oxum = rng.random() < 0.8
    if info:
        s.info = random_info(rng) if rng.random() < 0.92 else None
    else:
        s.info = []
    return s


def many_spec(rng):
    "a bag with a good many small files (see ops.many_splitter())"
    s = random_spec(rng, nfiles=0, hostile=0, empties=False, tags=False)
    for k in range(rng.choice([27, 34, 105])):
        s.files["data/%sf%d" % (rng.choice(["", "", "sub/", "d/e/"]), k)] = content(rng, rng.choice([1, 2, 3]))
    return s


OLD = ("0.93", "0.94", "0.95")   # (only for reading and validating)


def bagit_txt(s):
    return ("BagIt-Version: %s\nTag-File-Character-Encoding: %s\n"
            % (s.version, s.encoding)).encode("utf-8")


def render(s):
    "return path -> bytes of all the files of the bag"
    out = dict(s.files)
    out["bagit.txt"] = bagit_txt(s)
    if s.info is not None:
        pairs = list(s.info)
        if s.oxum and not any(n == "Payload-Oxum" for n, v in pairs):
            pay = [d for p, d in s.files.items() if p.startswith("data/")]
            pairs.append(("Payload-Oxum", "%d.%d" % (sum(map(len, pay)), len(pay))))
        out["package-info.txt" if s.version in OLD else "bag-info.txt"] = "".join("%s: %s\n" % (n, v) for n, v in pairs).encode(s.encoding)

    def h(alg, data):
        x = hashlib.new(alg, data).hexdigest()
        return x.upper() if s.upper else x
    for alg in s.algs:
        out["manifest-%s.txt" % alg] = "".join(
            "%s%s%s\n" % (h(alg, s.files[p]), s.mansep, p)
            for p in s.files if p.startswith("data/")).encode(s.encoding) + "".join(
            "%s%s%s\n" % (h(alg, s.fetch[p][2]), s.mansep, p)
            for p in s.fetch if p not in s.files).encode(s.encoding)
    if s.fetch:
        out["fetch.txt"] = "".join("%s%s%s%s%s\n" % (u, s.mansep, n, s.mansep, p)
                                   for p, (u, n, d) in s.fetch.items()).encode(s.encoding)
    out.update(s.extra_raw)
    tagf = sorted(p for p in out if not p.startswith("data/") and
                  not p.startswith("tagmanifest-"))
    if s.partial_tagman:
        tagf = tagf[::2]
    tm = {}
    for alg in s.tagalgs:
        tm["tagmanifest-%s.txt" % alg] = "".join(
            "%s%s%s\n" % (h(alg, out[p]), s.mansep, p) for p in tagf).encode(s.encoding)
    out.update({k: v for k, v in tm.items() if k not in s.extra_raw})
    return out


def write_bag(s, parent, rng=None, mtimes=True):
    "write the bag out as parent/name; return its path"
    root = os.path.join(parent, s.name)
    files = render(s)
    order = list(files)
    if rng:
        rng.shuffle(order)
    with mon.quiet():
        os.makedirs(os.path.join(root, "data"))
        for p in order:
            fp = os.path.join(root, p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            with open(fp, "wb") as fd:
                fd.write(files[p])
            if mtimes and rng:
                t = 946684800 + rng.randrange(0, 600000000)
                os.utime(fp, (t, t))
        for d in s.empty:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        if rng and rng.random() < 0.3:
            for p in order:
                if rng.random() < 0.3:
                    os.chmod(os.path.join(root, p), rng.choice([0o444, 0o600, 0o640, 0o755, 0o664, 0o777]))
    return root


FORMS = [".zip", ".tar", ".tgz", ".tar.gz", ".tar.bz2"]


def serialize(root, dest, form, dirs="all", rng=None, prefix=""):
    """
    serialize the bag's directory to the file dest+form
    :param dirs: "all": entries for all directories; "needed": only for the empty
                 ones (a directory that has files is implied)
    :param prefix: directories above the bag's root (each with a trailing slash)
    """
    name = os.path.basename(root)
    out = dest + form
    ents = []
    with mon.quiet():
        for d, subs, files in os.walk(root):
            rel = os.path.relpath(d, root)
            rel = prefix + (name if rel == "." else name + "/" + rel)
            if dirs == "all" or not (subs or files):
                ents.append((rel, d, True))
            for f in files:
                ents.append((rel + "/" + f, os.path.join(d, f), False))
        if rng:
            rng.shuffle(ents)
        if form == ".zip":
            with zipfile.ZipFile(out, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
                                 if rng else zipfile.ZIP_DEFLATED) as z:
                for n, p, isd in ents:
                    mt = max(os.lstat(p).st_mtime, 315619200)
                    zi = zipfile.ZipInfo(n + ("/" if isd else ""), time.gmtime(mt)[:6])
                    if isd:
                        zi.external_attr = (0o40755 << 16) | 0x10
                        z.writestr(zi, b"")
                    else:
                        zi.external_attr = 0o100644 << 16
                        zi.compress_type = z.compression
                        with open(p, "rb") as fd:
                            z.writestr(zi, fd.read())
        else:
            mode = {".tar": "w", ".tgz": "w:gz", ".tar.gz": "w:gz", ".tar.bz2": "w:bz2"}[form]
            kw = {"compresslevel": 1} if mode != "w" else {}
            with tarfile.open(out, mode, format=(rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])
                                                 if rng else tarfile.PAX_FORMAT), **kw) as z:
                for n, p, isd in ents:
                    z.add(p, n, recursive=False)
    return out
