"""
P17: a failing I/O call never passes silently
"""
import os, sys, shutil, gc, errno
from vlib import gen, oracle, mon, ops, hist, work, fault

ID = "P17"
LEVEL = "fault_enumeration"
RULE = ("an operation is run once without a fault (its calls of each kind are counted, its result is the "
        "reference) and then again with one call failed or cut short; it must raise an error or give the "
        "reference result; distinct by (operation, kind of call, error, outcome)")
ASSUMPTIONS = ["faults are injected at the libc boundary, below Python, in calls on files of the case's "
               "directories; calls that only ask for the status of a file are not failed",
               "the tag manifests that bagit itself writes may lack entries when a directory cannot be listed "
               "(bagit's own code ignores that), as long as the bag is valid"]
N = {"quick": 600, "thorough": 900}
REQUIRED = ["faults_fired", "raised", "completed", "kind_write", "kind_openw", "kind_openr", "kind_read",
            "kind_link", "kind_mkdir", "kind_unlink", "kind_close", "kind_opendir", "short_transfers",
            "full_disk", "op_split", "op_restore", "op_amend", "op_convert", "op_edit", "op_validate"]


def prepare(tier):
    fault.lib()
    sys.unraisablehook = lambda *a: None


def loose(res):
    "the result without what bagit's own listing of tag files determines"
    files, dirs = res
    return ({p: d for p, d in files.items() if "tagmanifest-" not in os.path.basename(p)}, dirs)


def nosize(res):
    files, dirs = res
    out = {}
    for p, d in files.items():
        if p.endswith("bag-info.txt") and isinstance(d, bytes):
            d = b"\n".join(l for l in d.split(b"\n") if not l.startswith(b"Bag-Size"))
        if os.path.basename(p).startswith("tagmanifest-"):
            continue
        out[p] = d
    return out, dirs


def case(ctx, i):
    rng = ctx.rng
    cls = ([work.Validate] + work.OPS)[i % (len(work.OPS) + 1)]
    op = cls(ctx, rng)
    ctx.count("op_" + op.kind.split()[0])
    home = ctx.path()
    os.chdir(home)
    prefix = home + "/"
    snap = [oracle.snapshot(p) for p in op.inputs]
    isval = isinstance(op, work.Validate)
    # all runs are done under the same name
    run = ctx.path("run")

    def wipe():
        with mon.quiet():
            for d, sub, f in os.walk(run):
                os.chmod(d, 0o755)
            shutil.rmtree(run)

    op.fresh(run)
    fault.arm(prefix, -1, fault.ERR, 0, fault.KINDS)
    try:
        op.run(run)
        gc.collect()
    finally:
        fault.disarm()
    counts = fault.counts()
    ref = op.result(run)
    refvalid = {}
    wipe()
    ctx.note([op.kind, {k: v for k, v in counts.items() if v}, getattr(op, "how", None)])
    ctx.count("calls_seen", sum(counts.values()))

    todo = []
    if ctx.tier == "thorough":
        for k in fault.KINDS:
            n = counts[k]
            idxs = list(range(n)) if n <= 40 else sorted(rng.sample(range(n), 40))
            for x in idxs:
                todo.append((k, x, rng.choice(fault.ERRNOS[k]), fault.ERR))
        rng.shuffle(todo)
        todo = todo[:160]
    else:
        have = [k for k in fault.KINDS if counts[k]]
        for j in range(11):
            k = have[(i + j) % len(have)] if rng.random() < 0.7 else rng.choice(have)
            todo.append((k, rng.randrange(counts[k]), rng.choice(fault.ERRNOS[k]), fault.ERR))
    full = ["write", "sendfile", "openw", "mkdir", "link"]
    n = sum(counts[k] for k in full)
    for j in range(1 if ctx.tier == "quick" else 4):
        if n:
            todo.append((full, rng.randrange(n), errno.ENOSPC, fault.PERSIST))
    for j in range(2 if ctx.tier == "quick" else 12):
        have = [k for k in fault.SHORTABLE if counts[k]]
        if have:
            k = rng.choice(have)
            todo.append((k, rng.randrange(counts[k]), 0, fault.SHORT))

    for kind, x, err, mode in todo:
        kinds = kind if isinstance(kind, list) else [kind]
        label = "full disk" if isinstance(kind, list) else kind
        op.fresh(run)
        what = "%s with %s call %d %s" % (op.kind, label, x, {
            fault.ERR: "failing with " + errno.errorcode.get(err, "?"),
            fault.PERSIST: "and all later ones failing with ENOSPC",
            fault.SHORT: "cut short"}[mode])
        exc = None
        fault.arm(prefix, x, mode, err, kinds)
        try:
            op.run(run)
            gc.collect()
        except mon.Escape:
            raise
        except Exception as ex:
            exc = ex
            ex.__traceback__ = None
        finally:
            fault.disarm()
            os.chdir(home)
        gc.collect()
        if not fault.fired():
            ctx.count("not_reached")
        else:
            ctx.count("faults_fired")
            ctx.count("kind_" + label.replace(" ", "_"))
            if mode == fault.SHORT:
                ctx.count("short_transfers")
            elif mode == fault.PERSIST:
                ctx.count("full_disk")
        if exc is not None:
            ctx.count("raised")
            if mode == fault.SHORT:
                ctx.check(False, "%s: raised %r" % (what, exc))
        elif isval:
            ctx.count("completed")
            ctx.check(ref or not op.result(run), "%s: a damaged bag (%s) was found to be valid"
                      % (what, op.how))
        else:
            ctx.count("completed")
            got = op.result(run)
            if kind == "opendir" and got != ref:
                ctx.count("opendir_tolerated")
                ctx.equal(loose(nosize(got))[0], loose(nosize(ref))[0],
                          "%s: no error, but the result differs" % what)
                ctx.equal(got[1], ref[1], "%s: no error, but directories differ" % what)
            else:
                ctx.equal(got[0], ref[0], "%s: no error, but the result differs" % what)
                ctx.equal(got[1], ref[1], "%s: no error, but directories differ" % what)
        ctx.feature(op.kind, label, err, mode, type(exc).__name__)
        wipe()
    for p, s in zip(op.inputs, snap):
        now = oracle.snapshot(p)
        ctx.equal(now, s, "%s with faults: the input %s was changed" % (op.kind, p))
        ctx.count("inputs_verified")
    if i < 9:
        ctx.sample({"operation": op.kind, "calls": {k: v for k, v in counts.items() if v},
                    "faults": [[k if isinstance(k, str) else "full disk", x, e, m]
                               for k, x, e, m in todo[:6]]})
