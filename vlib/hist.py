"""
Histories of an aggregation: a first version and a series of amendments, all done
with the code under test, along with an independent model of what each version's
head bag must say.
"""
import os, shutil

from . import gen, oracle, mon, ops
from .ops import *

URIS = ["https://example.org/b%20ag.zip?x=1#f", "doi:10.18434/M32", "ark:/88434/mds00hw91v",
        "http://x/y", "urn:uuid:1"]
COMMENTS = ["a comment", "\u00e9t\u00e9", "two  spaces # and a hash", "x", "in C#"]
INFOS = [["one"], ["a b", "c=d"], ["\u00fc", "2", "three"]]


EXTS = [""] + list(gen.FORMS)


class Ver(object):
    "what is to be expected of a version"
    def __init__(self, head, version):
        self.head = head           # name of the head bag
        self.version = version     # its head version (None: a plain bag)
        self.members = []          # [(name, uri, [info], comment)]
        self.deleted = set()
        self.deprecates = []
        self.how = None

    def names(self):
        return [m[0] for m in self.members]


class Hist(object):
    def __init__(self, ctx, rng, forms=True, hostile=None, tagdirs=0.15, empties=True,
                 readd=0.1, nfiles=(0, 1, 2, 3, 5), owndirs=0.15, become=0.08):
        self.become = become
        self.owndirs = owndirs
        self.ctx = ctx
        self.rng = rng
        self.forms = forms
        self.store = ctx.path("store")
        self.work = ctx.path("work")
        os.mkdir(self.store)
        os.mkdir(self.work)
        self.hostile = rng.choice([0.0, 0.4, 0.9]) if hostile is None else hostile
        self.nm = gen.Namer(rng, self.hostile)
        for d in ("multibag", "mbtags", "meta/mb tags"):
            self.nm.add_dir(d)
        self.tagdirs = tagdirs
        self.empties = empties
        self.readd = readd
        self.nfiles = nfiles
        self.trees = {}            # name -> Tree, as stored
        self.paths = {}            # name -> path in the store
        self.versions = []
        self.names = []
        self.gone_dirs = set()     # directories that were deleted as such
        self.became = set()        # directories that were replaced by a file
        self.kinds = []

    # ---------------------------------------------------------------- bags
    def name(self):
        while True:
            n = self.rng.choice(gen.BAGNAMES + ["agg", "upd", "v"])
            if self.rng.random() < 0.7:
                n += str(self.rng.randrange(100))
            if self.names and self.rng.random() < 0.25:
                # like the name of another bag
                o = self.rng.choice(self.names)
                n = self.rng.choice([o + ".b", o + "1", o.swapcase(), o[:-1], o.split(".")[0], o + "_1.mbag",
                                     "x" + o, o + ".mbag"])
                if not n or n != n.strip() or n in (".", ".."):
                    continue
            if any(n + e == o + f for o in self.names for e in EXTS for f in EXTS):
                continue
            self.names.append(n)
            return n

    def known_files(self):
        out = set()
        for t in self.trees.values():
            out.update(p for p in t.files if not oracle.is_special(p)
                       and not self._in_tagdir(p))
        return sorted(p for p in out if not any(p.startswith(d + "/") for d in self.gone_dirs))

    def _in_tagdir(self, p):
        return any(p.startswith(d + "/") for d in ("multibag", "mbtags", "meta/mb tags"))

    def spec(self, extra_info=(), reuse=True, nfiles=None, noinfo=False):
        rng = self.rng
        again = []
        known = self.known_files()
        if reuse and known:
            again = rng.sample(known, min(len(known), rng.choice([0, 1, 1, 2, 3])))
        s = gen.random_spec(rng, nfiles=rng.choice(self.nfiles) if nfiles is None else nfiles,
                            hostile=self.hostile, name=self.name(), nm=self.nm, reuse=again,
                            empties=self.empties)
        # nothing may appear in a directory that was deleted as such
        for p in list(s.files):
            if any(p.startswith(d + "/") for d in self.gone_dirs):
                del s.files[p]
        s.empty = [p for p in s.empty if not any((p + "/").startswith(d + "/")
                                                 for d in self.gone_dirs)]
        if s.info is None or (noinfo and rng.random() < 0.3):
            if noinfo:
                s.info = None
                self.ctx.count("members_without_info")
                return s
            s.info = []
        s.info = [x for x in s.info if x[0] != "Bag-Count"] + list(extra_info)
        return s

    def write(self, s):
        return gen.write_bag(s, self.work, self.rng)

    def put(self, path):
        "store a bag (and remember what is in it)"
        t = oracle.read_tree(path)
        name = os.path.basename(path)
        dest = ops.store_member(self.rng, path, self.store, self.forms)
        self.trees[name] = t
        self.paths[name] = dest
        if os.path.isfile(dest):
            self.ctx.count("serialized_members")
        return dest

    def meminfo(self):
        r = self.rng
        return (r.choice(URIS) if r.random() < 0.5 else None,
                r.choice(COMMENTS) if r.random() < 0.4 else None,
                r.choice(INFOS) if r.random() < 0.3 else [])

    # ------------------------------------------------------------ versions
    def first(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(["plain", "single", "single", "split", "split"])
        s = self.spec(nfiles=rng.choice([1, 2, 3, 5, 8]), noinfo=kind == "plain")
        src = self.write(s)
        if kind == "plain":
            v = Ver(s.name, None)
            v.members = [(s.name, None, [], None)]
            self.put(src)
        elif kind == "single":
            ver = rng.choice(["1", "1.0", "2018-01"])
            pid = rng.choice([None] + URIS)
            v = Ver(s.name, ver)
            if rng.random() < self.tagdirs:
                mk = SingleMultibagMaker(src, rng.choice(["mbtags", "meta/mb tags"]))
                mk.convert(ver, pid)
            else:
                make_single_multibag(src, ver, pid)
            v.members = [(s.name, pid, [], None)]
            self.put(src)
        else:
            splitter, desc = ops.random_splitter(rng, s, src)
            while True:
                base = self.name()
                paths = None
                names = ["%s_%d.mbag" % (base, k + 1) for k in range(40)]
                if not any(n + e == o + f for n in names for o in self.names for e in EXTS for f in EXTS):
                    break
            paths = splitter.split(src, self.work, base)
            self.names += [os.path.basename(p) for p in paths]
            v = Ver(os.path.basename(paths[-1]), "1")
            v.members = [(os.path.basename(p), None, [], None) for p in paths]
            for p in paths:
                self.put(p)
            if rng.random() < 0.7:
                with mon.quiet():
                    shutil.rmtree(src)
        v.how = kind
        self.kinds.append(kind)
        self.versions.append(v)
        self.ctx.note([kind, s.describe(), v.names()])
        return v

    def amend(self, deletes=True):
        rng, ctx = self.rng, self.ctx
        old = self.versions[-1]
        extra = []
        if rng.random() < self.tagdirs:
            extra = [("Multibag-Tag-Directory", rng.choice(["mbtags", "meta/mb tags"]))]
        # a directory may be replaced by a file
        repl = None
        if deletes and self.become and rng.random() < self.become:
            known = self.known_files()
            have = set(p for t in self.trees.values() for p in t.files)
            dirs = set(p[:j] for p in known for j in range(5, len(p)) if p[j] == "/" and p.startswith("data/"))
            dirs = sorted(d for d in dirs if not any((d + "/").startswith(g + "/") or g.startswith(d + "/")
                                                     for g in self.gone_dirs | old.deleted))
            if dirs:
                repl = rng.choice(dirs)
                self.gone_dirs.add(repl)
                self.became.add(repl)
                ctx.count("dirs_to_files")
        head = self.spec(extra)
        if repl:
            head.files[repl] = b"a file instead of " + repl.encode("utf-8")
        hpath = self.write(head)
        amending = []
        for k in range(rng.choice([0, 0, 1, 1, 2])):
            s = self.spec(noinfo=True)
            p = self.write(s)
            amending.append((s.name, p if rng.random() < 0.5 else self.put(p)))
        readded = set()
        n = None
        if len(old.members) > 1 and rng.random() < self.readd:
            n = rng.choice(old.names())
        if n and not any((p + "/").startswith(d + "/") for d in self.became
                         for p in list(self.trees[n].files) + list(self.trees[n].dirs)):
            amending.insert(0, (n, self.paths[n]))
            readded.add(n)
            ctx.count("readded_members")

        # what to delete
        newdel, when = set(), None
        if deletes and rng.random() < 0.6:
            own = set(head.files)
            for n, p in amending:
                own |= set(oracle.read_any(p).files)
            # (in some cases also a file that the amendment brings)
            cands = [p for p in self.known_files() if p not in own]
            newdel = set(rng.sample(cands, min(len(cands), rng.choice([1, 1, 2, 4]))))
            if rng.random() < 0.25:
                dirs = set(p.rsplit("/", 1)[0] for p in cands if p.count("/") > 1)
                dirs = sorted(d for d in dirs if not any(
                    q.startswith(d + "/") for q in own))
                if dirs:
                    d = rng.choice(dirs)
                    newdel.add(d)
                    self.gone_dirs.add(d)
                    ctx.count("deleted_directories")
            if rng.random() < 0.2:
                newdel.add("data/never was there")
            if rng.random() < 0.12:
                newdel |= set("data/gone/%d" % k for k in range(rng.choice([17, 33, 60])))
                ctx.count("many_deletions")
            when = rng.choice(["before", "after"])
            if when == "after" and rng.random() < 0.25 and own:
                # what the amendment brings itself
                mine = sorted(p for p in own if not oracle.is_special(p) and not self._in_tagdir(p))
                if mine:
                    newdel.add(rng.choice(mine))
                    ctx.count("deleted_own_files")
            mine = sorted(set(p.rsplit("/", 1)[0] for p in own if p.count("/") > 1 and not self._in_tagdir(p)))
            if when == "after" and mine and rng.random() < self.owndirs:
                d = rng.choice(mine)
                newdel.add(d)
                self.gone_dirs.add(d)
                ctx.count("deleted_own_dirs")
        if repl:
            newdel |= set(p for p in have if p.startswith(repl + "/"))
            when = when or "before"
        if newdel and when == "before":
            hb = HeadBag(hpath)
            for p in newdel:
                hb.set_deleted(p)
            hb.save_deleted()
            hb.save()

        ver = str(len(self.versions) + 1) + rng.choice(["", ".0", "-b"])
        v = Ver(head.name, ver)
        v.deprecates = list(old.deprecates) + [old.version or "1"]
        v.members = [m for m in old.members if m[0] not in readded]
        amendee = self.paths[old.head]
        r = rng.random()
        if r < 0.3:
            amendee = open_bag(amendee)
        elif r < 0.45 and os.path.isdir(amendee):
            amendee = Bag(amendee)
        if rng.random() < 0.4:
            v.how = "function"
            amend_bag_with(amendee, hpath, ver, *[p for n, p in amending])
            v.members += [(n, None, [], None) for n, p in amending]
            v.members.append((head.name, None, [], None))
        else:
            v.how = "class"
            uri, comm, info = self.meminfo()
            am = Amender(amendee, hpath, uri, comm, info)
            am.init_from_amendee()
            for n, p in amending:
                u, c, i = self.meminfo()
                am.add_amending_bag(p if rng.random() < 0.6 else open_bag(p),
                                    pid=u, comment=c, info=i)
                v.members.append((n, u, i, c))
            am.finalize(ver)
            v.members.append((head.name, uri, info, comm))
        if newdel and when == "after":
            hb = HeadBag(hpath)
            for p in newdel:
                hb.set_deleted(p)
            hb.save_deleted()
            hb.save()

        for n, p in amending:
            if n not in self.trees:
                self.put(p)
        back = set(p for p in self.tree_of(head.name, hpath).files)
        for n, p in amending:
            back |= set(self.trees[n].files)
        v.deleted = set(p for p in old.deleted if p not in back) | newdel
        if old.deleted - v.deleted:
            ctx.count("returned_files")
        if v.deleted:
            ctx.count("versions_with_deletions")
        self.put(hpath)
        self.versions.append(v)
        self.kinds.append("%s+%d%s" % (v.how, len(amending), when or ""))
        ctx.note([v.how, head.describe(), [n for n, p in amending], sorted(newdel), when])
        ctx.count("amendments")
        return v

    def tree_of(self, name, path):
        return self.trees.get(name) or oracle.read_tree(path)

    def member_trees(self, v):
        return [self.trees[n] for n in v.names()]

    def expected(self, v):
        "the files {path: (bytes, supplier)} and the directories of the combination"
        return model(self.member_trees(v), v.deleted, oracle.tagdir_of(self.trees[v.head]))


def model(trees, deleted, tagdir):
    files, dirs = {}, set()
    for t in trees:
        for p, data in t.files.items():
            if not oracle.is_special(p):
                files[p] = (data, t.name)
        dirs |= t.dirs

    def gone(p):
        return oracle.skipped(p, deleted) or p == tagdir or p.startswith(tagdir + "/")
    files = {p: x for p, x in files.items() if not gone(p)}
    # (where a file has replaced a directory there is no directory)
    parts = lambda d: set(d[:j] for j in range(len(d)) if d[j] == "/") | set([d])
    return files, set(d for d in dirs if not gone(d) and not any(q in files for q in parts(d)))


def build(ctx, nver=None, **kw):
    h = Hist(ctx, ctx.rng, **kw)
    h.first()
    if nver is None:
        nver = ctx.rng.choice([1, 1, 2, 2, 3, 4] if ctx.rng.random() > 0.04 else [7, 9, 12])
    for i in range(nver):
        h.amend()
    return h


def compare(ctx, h, v, got, what="the restored bag", tagdir_gone=True, **kw):
    files, dirs = h.expected(v)
    have = ops.content_files(got)
    ctx.equal(set(have), set(files), what + " does not have the files of the combination")
    for p in files:
        ctx.count("files_compared")
        ctx.check(have[p] == files[p][0], "%s: %r is not the version in the last member that "
                  "has it (%s)" % (what, p, files[p][1]))
    ctx.equal(got.dirs, dirs, what + " does not have the directories of the combination")
    ops.check_clean_bag(ctx, got, what, **kw)
    want, algs = oracle.combined_entries(h.member_trees(v), h.trees[v.head])
    pay, tag = oracle.manifests(got)
    ctx.equal(set(pay), algs, what + ": algorithms of the payload manifests")
    for alg in pay:
        ctx.equal(pay[alg], want.get(alg, {}), "%s: manifest-%s.txt" % (what, alg))
    ctx.equal(got.files["bagit.txt"], h.trees[v.head].files["bagit.txt"], what + ": bagit.txt")
    info = oracle.info_of(got)
    htree = h.trees[v.head]
    agg = htree.files.get(oracle.tagdir_of(htree) + "/aggregation-info.txt")
    base = oracle.tag_values(oracle.parse_tags(agg.decode("utf-8"))) if agg is not None else oracle.info_of(htree)
    own = ("Payload-Oxum", "Bag-Size", "Multibag-Version", "Multibag-Head-Version", "Multibag-Tag-Directory",
           "Multibag-Head-Deprecates", "Multibag-Reference")
    ctx.equal({k: [oracle.squash(x) for x in x] for k, x in info.items() if k not in own},
              {k: [oracle.squash(x) for x in x] for k, x in base.items() if k not in own},
              what + ": bag-info.txt")
    ctx.equal(info.get("Payload-Oxum"), ["%d.%d" % oracle.payload_oxum(got)],
              what + ": Payload-Oxum")
    for k in ("Multibag-Version", "Multibag-Head-Version", "Multibag-Tag-Directory",
              "Multibag-Head-Deprecates", "Multibag-Reference"):
        ctx.check(k not in info, "%s still says %s" % (what, k))
