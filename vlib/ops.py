"""
Operations on the code under test that several workloads share.
"""
import os, shutil, logging, copy, contextlib

import multibag
from multibag.split import (WellPackedSplitter, NeighborlySplitter, SplitPlan, Splitter,
                            SimpleNamer)
from multibag.restore import BagRestorer, restore_bag
from multibag.access.bagit import Bag, ReadOnlyBag, open_bag, Path
from multibag.access.extended import as_extended
from multibag.access.multibag import (HeadBag, ReadOnlyHeadBag, open_headbag, as_headbag,
                                      is_headbag, MemberInfo)
from multibag.amend import Amender, amend_bag_with, make_single_multibag, SingleMultibagMaker

from . import gen, oracle, mon


class ManualSplitter(Splitter):
    "a splitter with a strategy of its own: the files to put in each output bag"
    def __init__(self, groups, source=None):
        super(ManualSplitter, self).__init__()
        self.groups = groups
        self.source = source

    def _create_plan(self, bagpath):
        plan = SplitPlan(self.source or bagpath)
        for g in self.groups:
            plan._manifests.append({"contents": list(g), "totalsize": 0})
        plan.complete_plan()
        return plan


def random_splitter(rng, spec, srcdir):
    "return (splitter, description)"
    sizes = [len(d) for p, d in spec.files.items()]
    total = sum(sizes) or 1
    r = rng.random()
    if r < 0.15 and hasattr(SplitPlan(srcdir), "_manifests"):
        paths = list(spec.files)
        rng.shuffle(paths)
        k = rng.choice([1, 2, 3])
        groups = [[] for i in range(k)]
        for p in paths:
            if rng.random() < 0.8:
                groups[rng.randrange(k)].append(p)
        groups = [g for g in groups if g]
        return ManualSplitter(groups), {"type": "manual", "groups": groups}
    mx = rng.choice([1, 100, 150, 200, 500, max(sizes or [1]), total, total - 1 or 1,
                     max(1, total // 2), max(1, total // 3 + 1), 10 ** 9])
    kw = {"maxsize": mx}
    if rng.random() < 0.35:
        kw["targetsize"] = rng.choice([max(1, mx // 2), max(1, mx - 1), 1, mx, max(1, mx * 3 // 4)])
    if rng.random() < 0.3 and spec.files:
        fh = rng.sample(sorted(spec.files), min(len(spec.files), rng.choice([1, 1, 2, 3])))
        kw["forhead"] = [("/" + p if rng.random() < 0.4 else p) for p in fh]
        if rng.random() < 0.2:
            kw["forhead"].append("data/not there")
    cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
    return cls(**copy.deepcopy(kw)), {"type": cls.__name__, "args": kw}


def many_splitter(rng):
    "every file of a gen.many_spec() gets its own bag, or nearly"
    cls = rng.choice([WellPackedSplitter, NeighborlySplitter])
    kw = {"maxsize": rng.choice([1, 3, 4])}
    return cls(**kw), {"type": cls.__name__, "args": kw}


def names_for(rng, spec):
    "a naming basis for the output bags: (factory of namebasis, description)"
    r = rng.random()
    if r < 0.45:
        return None, "default"
    base = rng.choice(gen.BAGNAMES)
    if r < 0.7:
        return base, base
    return "iter:" + base, "iterator"


class ListNamer(object):
    "a naming iterator with nothing but next()"
    def __init__(self, base):
        self.base = base
        self.given = []
    def __iter__(self):
        return self
    def __next__(self):
        n = "%s %02d" % (self.base, len(self.given))
        self.given.append(n)
        return n


def basis(nb):
    if nb is not None and nb.startswith("iter:"):
        return ListNamer(nb[5:])
    return nb


LOGGED = []

class _Keep(logging.Handler):
    def emit(self, record):
        LOGGED.append(record.getMessage())

def random_logger(rng):
    "None or a logger"
    if rng.random() < 0.6:
        return None
    log = logging.getLogger("verif.%s" % rng.choice("abc"))
    log.propagate = False
    log.setLevel(rng.choice([logging.DEBUG, logging.INFO, logging.ERROR]))
    if not log.handlers:
        log.addHandler(_Keep())
    del LOGGED[:]
    return log


def store_member(rng, path, store, forms=True):
    """
    put a bag away into the store directory, in its original or in a serialized
    form; return the new path
    """
    with mon.quiet():
        name = os.path.basename(path)
        r = rng.random()
        if not forms or r < 0.55:
            dest = os.path.join(store, name)
            if dest != path:
                os.rename(path, dest)
            return dest
        form = rng.choice(gen.FORMS)
        dest = gen.serialize(path, os.path.join(store, name), form,
                             rng.choice(["all", "all", "needed"]), rng)
        shutil.rmtree(path)
        return dest


def check_clean_bag(ctx, tree, what, **kw):
    probs = oracle.bag_problems(tree, **kw)
    ctx.count("bags_checked")
    ctx.check(not probs, "%s is not a valid bag: %s" % (what, "; ".join(probs[:4])))


def content_files(tree, exclude=()):
    "the files other than the BagIt-specific ones"
    return {p: d for p, d in tree.files.items()
            if not oracle.is_special(p) and not any(p.startswith(x + "/") for x in exclude)}


@contextlib.contextmanager
def maybe_nolinks(ctx, rng, prob=0.25):
    "in some cases, run on a file system without hard links"
    if rng.random() >= prob:
        yield
        return
    n = mon.nolinks.used
    with mon.nolinks():
        yield
    if mon.nolinks.used > n:
        ctx.count("without_hard_links")
