"""
Oracles that are independent of the code under test (and of the bagit and fs
modules it uses): reading of bags, directories and archives with the standard
library only; BagIt completeness and validity; the multibag tag files; and the
rules of the profile for combining member bags.
"""
import os, re, io, hashlib, zipfile, tarfile, stat
from collections import OrderedDict

from . import mon

SPECIAL = re.compile(r"^(bagit\.txt|bag-info\.txt|fetch\.txt|(tag)?manifest-[A-Za-z0-9_]+\.txt)$")
MANIF = re.compile(r"^(tag)?manifest-([A-Za-z0-9_]+)\.txt$")


def is_special(path):
    return bool(SPECIAL.match(path))


class Tree(object):
    "the content of a directory tree (or of a bag in an archive)"
    def __init__(self):
        self.files = {}      # path -> bytes
        self.dirs = set()    # every directory (relative; root excluded)
        self.mtimes = {}
        self.modes = {}
        self.name = None

    def empty_dirs(self):
        out = set()
        for d in self.dirs:
            if not any(p.startswith(d + "/") for p in self.files) and \
               not any(x.startswith(d + "/") for x in self.dirs):
                out.add(d)
        return out


def read_tree(root):
    t = Tree()
    t.name = os.path.basename(root.rstrip("/"))
    with mon.quiet():
        def onerr(ex):
            raise ex
        for d, dirs, files in os.walk(root, onerror=onerr):
            rel = os.path.relpath(d, root)
            rel = "" if rel == "." else rel + "/"
            for x in dirs:
                t.dirs.add(rel + x)
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fd:
                    t.files[rel + f] = fd.read()
                st = os.lstat(p)
                t.mtimes[rel + f] = st.st_mtime
                t.modes[rel + f] = st.st_mode
    return t


def read_archive(path):
    "read a serialized bag (one top level directory)"
    t = Tree()
    ents = []
    with mon.quiet():
        if path.endswith(".zip"):
            with zipfile.ZipFile(path) as z:
                for i in z.infolist():
                    ents.append((i.filename, None if i.is_dir() else z.read(i)))
        else:
            with tarfile.open(path) as z:
                for i in z.getmembers():
                    if i.isdir():
                        ents.append((i.name.rstrip("/") + "/", None))
                    elif i.isfile():
                        ents.append((i.name, z.extractfile(i).read()))
    tops = set(e[0].split("/")[0] for e in ents)
    assert len(tops) == 1, tops
    t.name = tops.pop()
    for n, data in ents:
        rel = n[len(t.name) + 1:]
        if not rel:
            continue
        if data is None:
            rel = rel.rstrip("/")
            t.dirs.add(rel)
        else:
            t.files[rel] = data
        while "/" in rel:
            rel = rel.rsplit("/", 1)[0]
            t.dirs.add(rel)
    return t


def read_any(path):
    if os.path.isdir(path):
        return read_tree(path)
    return read_archive(path)


def snapshot(root):
    "everything about a file or directory tree: for detecting any change"
    out = {}
    with mon.quiet():
        def add(p, rel):
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("l", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("d", stat.S_IMODE(st.st_mode), st.st_mtime_ns)
            else:
                with open(p, "rb") as fd:
                    h = hashlib.sha1(fd.read()).hexdigest()
                out[rel] = ("f", stat.S_IMODE(st.st_mode), st.st_mtime_ns,
                            st.st_size, h)
        add(root, ".")
        if os.path.isdir(root):
            for d, dirs, files in os.walk(root):
                for x in dirs + files:
                    p = os.path.join(d, x)
                    add(p, os.path.relpath(p, root))
    return out


# ---------------------------------------------------------------- tag files

def parse_tags(text):
    """
    parse a BagIt tag file; return a list of (name, value)
    """
    out = []
    text = text.lstrip(u"\ufeff")
    for line in re.split(r"\r\n|\n|\r", text):
        if not line.strip():
            continue
        if line[0] in " \t" and out:
            out[-1] = (out[-1][0], out[-1][1] + "\n" + line)
            continue
        name, sep, value = line.partition(":")
        if not sep:
            raise ValueError("bad tag file line: %r" % line)
        out.append((name.strip(), value.strip()))
    return out


def tag_values(pairs):
    "name -> [values] with the white space of folded values normalized"
    out = OrderedDict()
    for n, v in pairs:
        if "\n" in v:
            v = re.sub(r"\s+", " ", v).strip()
        out.setdefault(n, []).append(v)
    return out


def squash(v):
    return re.sub(r"\s+", " ", v).strip()


def bagit_version(tree):
    "BagIt's version as numbers; (0, 97) if it cannot be told"
    try:
        v = dict(parse_tags(tree.files["bagit.txt"].decode("utf-8-sig")))["BagIt-Version"]
        return tuple(int(x) for x in v.split("."))
    except (KeyError, ValueError):
        return (0, 97)


def info_file(tree):
    "the name of the file with the bag's metadata"
    return "package-info.txt" if (0, 93) <= bagit_version(tree) <= (0, 95) else "bag-info.txt"


def info_of(tree):
    f = info_file(tree)
    if f not in tree.files:
        return OrderedDict()
    return tag_values(parse_tags(tree.files[f].decode(encoding_of(tree))))


def encoding_of(tree):
    "the encoding of the tag files"
    tags = dict(parse_tags(tree.files.get("bagit.txt", b"").decode("utf-8")))
    return tags.get("Tag-File-Character-Encoding", "utf-8")


def parse_manifest(data, encoding="utf-8"):
    "return (map path->hash, [problems])"
    out, bad = {}, []
    for line in data.decode(encoding).split("\n"):
        line = line.rstrip("\r")
        if not line.strip() or line.startswith("#"):
            continue
        m = re.match(r"^(\S+)[ \t]+\*?(.*)$", line)
        if not m:
            bad.append("bad line %r" % line)
            continue
        h, p = m.group(1), m.group(2)
        p = p.replace("%0A", "\n").replace("%0D", "\r")
        if p.startswith("./"):
            p = p[2:]
        if p in out:
            bad.append("path listed more than once: %r" % p)
        out[p] = h.lower()
    return out, bad


def manifests(tree):
    "{alg: {path: hash}} for the payload and for the tag manifests"
    pay, tag = {}, {}
    for f in tree.files:
        m = MANIF.match(f)
        if m:
            (tag if m.group(1) else pay)[m.group(2)] = parse_manifest(tree.files[f], encoding_of(tree))[0]
    return pay, tag


def bag_problems(tree, allow_fetch=False, want_all_algs=False):
    "the ways in which the tree is not a complete and valid BagIt bag"
    out = []
    if "bagit.txt" not in tree.files:
        return ["no bagit.txt"]
    raw = tree.files["bagit.txt"]
    if raw.startswith(b"\xef\xbb\xbf"):
        out.append("bagit.txt has a byte-order mark")
    tags = dict(parse_tags(raw.decode("utf-8")))
    for t in ("BagIt-Version", "Tag-File-Character-Encoding"):
        if t not in tags:
            out.append("bagit.txt is missing " + t)
    if "data" not in tree.dirs:
        out.append("no data directory")
    fetch = set()
    if allow_fetch and "fetch.txt" in tree.files:
        fetch = set(x[2] for x in parse_fetch(tree.files["fetch.txt"]))
    pay, tag = {}, {}
    for f in sorted(tree.files):
        m = MANIF.match(f)
        if not m or m.group(1) and bagit_version(tree) < (0, 97):
            # (before BagIt 0.97 tag manifests do not matter)
            continue
        ents, bad = parse_manifest(tree.files[f])
        out += ["%s: %s" % (f, b) for b in bad]
        (tag if m.group(1) else pay)[m.group(2)] = ents
        for p, h in ents.items():
            if m.group(1):
                if p.startswith("data/"):
                    out.append("%s lists a payload file: %s" % (f, p))
            elif not p.startswith("data/"):
                out.append("%s lists a non-payload file: %s" % (f, p))
            if p not in tree.files:
                if p not in fetch:
                    out.append("%s lists a file that does not exist: %r" % (f, p))
                continue
            if hashlib.new(m.group(2), tree.files[p]).hexdigest() != h:
                out.append("%s: wrong hash for %r" % (f, p))
    if not pay:
        out.append("no payload manifest")
    listed = set()
    for alg in pay:
        listed.update(pay[alg])
    for p in tree.files:
        if not p.startswith("data/"):
            continue
        if p not in listed:
            out.append("payload file is not in any manifest: %r" % p)
        elif want_all_algs:
            for alg in pay:
                if p not in pay[alg]:
                    out.append("payload file is not in manifest-%s: %r" % (alg, p))
    oxum = info_of(tree).get("Payload-Oxum")
    if oxum:
        got = "%d.%d" % payload_oxum(tree)
        if oxum[0] != got:
            out.append("Payload-Oxum is %s, not %s" % (oxum[0], got))
    return out


def payload_oxum(tree):
    pay = [d for p, d in tree.files.items() if p.startswith("data/")]
    return sum(len(d) for d in pay), len(pay)


def parse_fetch(data, encoding="utf-8"):
    out = []
    for line in data.decode(encoding).split("\n"):
        if line.strip():
            out.append(tuple(line.strip().split(None, 2)))
    return out


# ------------------------------------------------------- multibag tag files

def parse_members(data):
    "member-bags.tsv: [(name, uri, [info], comment)]"
    out = []
    for line in data.decode("utf-8-sig").split("\n"):
        if not line.strip():
            continue
        f = line.rstrip("\r").split("\t")
        name = f.pop(0).strip()
        comment = None
        for i in range(len(f)):
            if f[i].startswith("# "):
                comment = "\t".join(f[i:])[2:].strip()
                f = f[:i]
                break
        uri = f.pop(0).strip() if f else ""
        out.append((name, uri or None, f, comment))
    return out


def parse_lookup(data):
    out = OrderedDict()
    for line in data.decode("utf-8-sig").split("\n"):
        if not line.strip():
            continue
        f = [x.strip() for x in line.split("\t")]
        if len(f) != 2:
            raise ValueError("bad file-lookup.tsv line: %r" % line)
        if f[0] in out:
            raise ValueError("file-lookup.tsv lists %r more than once" % f[0])
        out[f[0]] = f[1]
    return out


def parse_deleted(data):
    return [x.strip() for x in data.decode("utf-8-sig").split("\n") if x.strip()]


def tagdir_of(tree):
    v = info_of(tree).get("Multibag-Tag-Directory")
    return v[-1] if v and v[-1] else "multibag"


def members_of(tree):
    return parse_members(tree.files[tagdir_of(tree) + "/member-bags.tsv"])


def lookup_of(tree):
    return parse_lookup(tree.files[tagdir_of(tree) + "/file-lookup.tsv"])


def deleted_of(tree):
    p = tagdir_of(tree) + "/deleted.txt"
    return parse_deleted(tree.files[p]) if p in tree.files else []


def is_head(tree):
    return "Multibag-Head-Version" in info_of(tree)


def profile_problems(tree):
    "violations of the MUSTs of the profile for a bag written by the library"
    out = []
    info = info_of(tree)
    v = info.get("Multibag-Version")
    if not v or not v[0]:
        out.append("no Multibag-Version")
    elif len(v) > 1:
        out.append("repeated Multibag-Version")
    if not is_head(tree):
        return out
    for k in ("Multibag-Head-Version", "Multibag-Tag-Directory"):
        if len(info.get(k, [])) > 1:
            out.append("repeated " + k)
    if not info["Multibag-Head-Version"][0]:
        out.append("empty Multibag-Head-Version")
    td = tagdir_of(tree)
    if td not in tree.dirs:
        out.append("no multibag tag directory")
        return out
    if td + "/member-bags.tsv" not in tree.files:
        out.append("no member-bags.tsv")
    else:
        mem = members_of(tree)
        if not mem or mem[-1][0] != tree.name:
            out.append("the head bag is not the last one in member-bags.tsv")
        names = [m[0] for m in mem]
        if len(set(names)) != len(names):
            out.append("a bag is listed twice in member-bags.tsv")
        for m in mem:
            if m[1] and not re.match(r"^[A-Za-z][A-Za-z0-9+.-]*:", m[1]):
                out.append("member URL is not absolute: %r" % m[1])
    if td + "/file-lookup.tsv" not in tree.files:
        out.append("no file-lookup.tsv")
    else:
        try:
            lu = lookup_of(tree)
        except ValueError as ex:
            out.append(str(ex))
        else:
            for p, b in lu.items():
                if b == tree.name and p not in tree.files:
                    out.append("file-lookup.tsv: not in this bag: %r" % p)
            if td + "/member-bags.tsv" in tree.files:
                for p, b in lu.items():
                    if b not in names:
                        out.append("file-lookup.tsv names a non-member bag: %r" % b)
    for d in info.get("Multibag-Head-Deprecates", []):
        if len(d.split(",")) > 2:
            out.append("bad Multibag-Head-Deprecates: %r" % d)
    return out


# ------------------------------------------------- combining member bags

def skipped(path, deleted):
    return any(path == d or path.startswith(d + "/") for d in deleted)


def combine(trees, head):
    """
    apply the profile's process for combining the member bags (in the order
    of the member list) to their content.
    :return: dict path -> (bytes, name of the supplying bag), for all files
             other than the BagIt-specific ones, and the set of directories
             that have to exist
    """
    deleted = deleted_of(head)
    td = tagdir_of(head)
    files, dirs = {}, set()
    for t in trees:
        for p, data in t.files.items():
            if not is_special(p):
                files[p] = (data, t.name)
        dirs.update(t.dirs)
    for p in list(files):
        if skipped(p, deleted) or p.startswith(td + "/"):
            del files[p]
    dirs = set(d for d in dirs if not skipped(d, deleted)
               and d != td and not d.startswith(td + "/"))
    return files, dirs


def combined_entries(trees, head):
    """
    {alg: {path: hash}}: the payload manifests of the combination, each hash 
    coming from the last member that has the file (or lists it as to be fetched)
    """
    deleted = deleted_of(head)
    src = {}
    for i, t in enumerate(trees):
        for alg in manifests(t)[0]:
            for p in manifests(t)[0][alg]:
                if not any(p in x.files for x in trees):
                    src[p] = i       # a file that is yet to be fetched
        for p in t.files:
            if p.startswith("data/"):
                src[p] = i
    out = {}
    algs = set()
    for i, t in enumerate(trees):
        pay, _ = manifests(t)
        for alg in pay:
            algs.add(alg)
            for p, h in pay[alg].items():
                if skipped(p, deleted):
                    continue
                if src.get(p) == i:
                    out.setdefault(alg, {})[p] = h
    return out, algs


def combine_fetch(trees, head):
    "the fetch list of the combination: {path: (url, size)}"
    out = OrderedDict()
    for t in trees:
        if "fetch.txt" in t.files:
            for url, size, path in parse_fetch(t.files["fetch.txt"]):
                out[path] = (url, size)
    deleted = deleted_of(head)
    for p in list(out):
        if skipped(p, deleted):
            del out[p]
    return out
