"""
P08: an amendment leaves a head bag that describes the updated aggregation correctly
"""
import os
from vlib import gen, oracle, mon, ops, hist
from vlib.ops import *
from props.p10 import listed
from multibag import HeadBagValidator, validate_headbag
from multibag.constants import CURRENT_VERSION

ID = "P08"
LEVEL = "exploration"
RULE = ("after every amendment of a random history the new head bag's tag files and bag-info are "
        "compared with a model of the history (member order and fields, deprecated versions, "
        "deleted paths), and the amending bags' own content must be preserved; distinct by "
        "(kinds of steps)")
ASSUMPTIONS = []
N = {"quick": 1000, "thorough": 5000}
REQUIRED = ["lookup_requests", "amendments", "member_lines", "member_fields", "deprecates", "deleted_lines",
            "readded_members", "returned_files", "kept_files", "promoted_members"]


def case(ctx, i):
    rng = ctx.rng
    h = hist.Hist(ctx, rng, readd=0.2)
    h.first()
    judge(ctx, h, h.versions[0], None)
    for k in range(rng.choice([1, 2, 3, 4] if rng.random() > 0.05 else [7, 9])):
        orig = {}
        write = h.write

        def spy(s):
            p = write(s)
            orig[s.name] = oracle.read_tree(p)
            return p
        h.write = spy
        v = h.amend()
        h.write = write
        judge(ctx, h, v, orig)
    (promote if len(h.versions[-1].members) > 1 and rng.random() < 0.4 else requests)(ctx, h)
    ctx.feature(*h.kinds)
    ctx.sample({"steps": h.kinds, "members": h.versions[-1].members,
                "deprecates": h.versions[-1].deprecates, "deleted": sorted(h.versions[-1].deleted)})


def promote(ctx, h):
    "a bag that is a member already becomes the head bag of the next version"
    rng = ctx.rng
    old = h.versions[-1]
    name = rng.choice(old.names()[:-1])
    t = h.trees[name]
    path = ctx.path(name)
    with mon.quiet():
        for d in sorted(t.dirs | {""}):
            os.makedirs(os.path.join(path, d), exist_ok=True)
        for q, data in t.files.items():
            with open(os.path.join(path, q), "wb") as fd:
                fd.write(data)
    oldtree = h.trees[old.head]
    lu = dict(oracle.lookup_of(oldtree))
    amend_bag_with(h.paths[old.head], path, "88")
    got = oracle.read_tree(path)
    ctx.note(["promoted", name])
    ctx.equal([m[0] for m in oracle.members_of(got)], [n for n in old.names() if n != name] + [name],
              "the member list after a member has become the head bag")
    want = {p: n for p, n in lu.items() if n != name}
    want.update({p: name for p in t.files if p.startswith("data/")})
    ctx.equal(dict(oracle.lookup_of(got)), want, "the lookup after a member has become the head bag")
    if "Multibag-Head-Version" not in oracle.info_of(t):
        ctx.equal(set(oracle.deleted_of(got)), set(p for p in old.deleted if p not in t.files and lu.get(p) != name),
                  "the list of deleted files after a member has become the head bag")
    probs = oracle.bag_problems(got) + oracle.profile_problems(got)
    ctx.check(not probs, "the member that has become the head bag is not compliant: %s" % probs[:3])
    ctx.count("promoted_members")


def requests(ctx, h):
    "an amendment with requests for what to list in the lookup"
    rng = ctx.rng
    old = h.versions[-1]
    lu = {}
    if old.version is not None:
        lu.update(oracle.lookup_of(h.trees[old.head]))
    else:
        for p in h.trees[old.head].files:
            if p.startswith("data/"):
                lu[p] = old.head
    mem, head = h.spec(), h.spec()
    bags = [(mem, h.write(mem)), (head, h.write(head))]
    am = Amender(h.paths[old.head], bags[1][1])
    am.init_from_amendee()
    for k, (s, path) in enumerate(bags):
        paths = sorted(s.files)
        inc = exc = None
        dirs = sorted(set(p[:j] for p in paths for j in range(len(p)) if p[j] == "/") | set(["data"]))
        dirs = [d for d in dirs if d.split("/")[0] not in ("multibag", "mbtags", "meta")]
        if rng.random() < 0.7:
            inc = rng.sample(dirs, min(len(dirs), rng.choice([0, 1, 1, 2])))
            inc += rng.sample(paths, min(len(paths), rng.choice([0, 1, 2])))
            if rng.random() < 0.2:
                inc.append("data/not there")
        if rng.random() < 0.6:
            exc = rng.sample(paths, min(len(paths), rng.choice([0, 1, 2])))
            exc += rng.sample(dirs, min(len(dirs), rng.choice([0, 1])))
            exc = [x for x in exc if x not in paths or x not in (inc or [])]
            if inc and len(inc) > 1 and rng.random() < 0.4 and inc[0] not in paths:
                exc.append(inc[0])
        want = listed(oracle.read_tree(path), ["data"] if inc is None else inc, exc or [])
        if k == 0:
            am.add_amending_bag(path, inc, exc)
        else:
            am.finalize("77", inc, exc)
        for p in want:
            lu[p] = s.name
        ctx.note([s.name, inc, exc])
        ctx.count("lookup_requests")
    ctx.equal(dict(oracle.lookup_of(oracle.read_tree(bags[1][1]))), lu, "lookup after an amendment with requests")


def judge(ctx, h, v, orig):
    if v.version is None:
        return
    t = h.trees[v.head]
    probs = oracle.bag_problems(t) + oracle.profile_problems(t)
    ctx.check(not probs, "the new head bag is not compliant: %s" % probs[:3])
    mem = oracle.members_of(t)
    ctx.equal([m[0] for m in mem], v.names(), "the member list")
    for got, want in zip(mem, v.members):
        ctx.count("member_lines")
        if want[1] or want[2] or want[3]:
            ctx.count("member_fields")
        ctx.equal(got, tuple(want[:2]) + (list(want[2]), want[3]),
                  "the entry of %r in the member list" % want[0])
    info = oracle.info_of(t)
    ctx.equal(info["Multibag-Head-Version"], [v.version], "Multibag-Head-Version")
    ctx.equal(info["Multibag-Version"], [CURRENT_VERSION], "Multibag-Version")
    ctx.equal(info.get("Multibag-Head-Deprecates", []), v.deprecates, "Multibag-Head-Deprecates")
    ctx.count("deprecates", len(v.deprecates))
    dels = oracle.deleted_of(t)
    ctx.count("deleted_lines", len(dels))
    ctx.equal(set(dels), v.deleted, "the list of deleted files")
    ctx.equal(len(dels), len(set(dels)), "number of lines in the list of deleted files")
    path = h.paths[v.head]
    res = HeadBagValidator(path).validate()
    ctx.check(not res.failed(3), "the head bag validator reports: %s"
              % [str(f) for f in res.failed(3)][:2])
    validate_headbag(path)

    # the library reads it that way, too
    hb = open_headbag(path, ctx.rng.random() < 0.5)
    ctx.equal([(m.name, m.uri, m.info, m.comment) for m in hb.member_bags()],
              [(a, b, list(c), d) for a, b, c, d in v.members], "member_bags()")
    ctx.equal(hb.member_bag_names, v.names(), "member_bag_names")
    ctx.equal(set(hb.deleted_paths()), v.deleted, "deleted_paths()")
    ctx.equal(hb.head_version, v.version, "head_version")
    if orig is None:
        return

    # the bags that make the amendment keep all of their own content
    for name, before in orig.items():
        after = h.trees[name]
        td = oracle.tagdir_of(after)
        for p, data in before.files.items():
            if oracle.is_special(p) and name == v.head:
                continue
            if p.startswith(td + "/"):
                continue
            ctx.count("kept_files")
            ctx.check(after.files.get(p) == data, "%r in %r was changed" % (p, name))
        extra = set(p for p in after.files if p not in before.files and
                    not p.startswith(td + "/") and not p.startswith("tagmanifest-"))
        ctx.equal(extra - set(["bag-info.txt"]), set(), "files that were added to %r" % name)
        if name == v.head:
            a, b = oracle.info_of(after), oracle.info_of(before)
            for k in b:
                if k.startswith("Multibag-") or k in ("Bag-Size", "Bag-Count"):
                    continue
                got = [oracle.squash(x) for x in a.get(k, [])]
                want = [oracle.squash(x) for x in b[k]]
                if k == "Internal-Sender-Description":
                    got = got[:len(want)]
                ctx.equal(got, want, "bag-info %s of the new head bag" % k)
            for alg, ents in oracle.manifests(before)[0].items():
                ctx.equal(oracle.manifests(after)[0].get(alg), ents, "manifest of the new head bag")
