"""
P18: a crash at any point leaves inputs intact and the work can be redone
"""
import os, sys, shutil, gc, signal
from vlib import gen, oracle, mon, ops, hist, work, fault

ID = "P18"
LEVEL = "fault_enumeration"
RULE = ("a forked child runs an operation and ends at once, without any cleanup, at the k-th call that changes "
        "the file system (or halfway through writing); afterwards the inputs, what was delivered before, and "
        "the payload of a bag changed in place are compared with what they were, and the operation is redone; "
        "distinct by (operation, kind of the call at the crash, progress in tenths)")
ASSUMPTIONS = ["the process dies, not the machine: what was written before the crash is kept by the system"]
N = {"quick": 420, "thorough": 1200}
REQUIRED = ["crashes", "op_split", "op_restore", "op_amend", "op_convert", "op_edit", "delivered_verified",
            "inputs_verified", "redone", "payload_verified"]


def prepare(tier):
    fault.lib()
    sys.unraisablehook = lambda *a: None


def case(ctx, i):
    rng = ctx.rng
    op = work.OPS[i % len(work.OPS)](ctx, rng)
    kind0 = op.kind.split()[0]
    ctx.count("op_" + kind0)
    home = ctx.path()
    os.chdir(home)
    prefix = home + "/"
    snap = [oracle.snapshot(p) for p in op.inputs]
    run = ctx.path("run")
    log = ctx.path("log")

    def wipe():
        with mon.quiet():
            for d, sub, f in os.walk(run):
                os.chmod(d, 0o755)
            shutil.rmtree(run)

    # the reference (calls are counted)
    before = None
    order = []
    op.fresh(run)
    if op.inplace:
        before = oracle.read_tree(op.target(run))
    fault.arm(prefix, -1, fault.ERR, 0, fault.MUTATING)
    try:
        op.run(run, order.append)
        gc.collect()
    finally:
        n = fault.disarm()
    os.chdir(home)
    ref = op.result(run)
    wipe()
    ctx.note([op.kind, n])
    ctx.count("mutating_calls", n)
    if ctx.tier == "thorough":
        ks = list(range(n)) if n <= 60 else sorted(rng.sample(range(n), 60))
    else:
        ks = sorted(rng.sample(range(n), min(n, 8)))

    for k in ks:
        op.fresh(run)
        with mon.quiet():
            open(log, "wb").close()
        lfd = os.open(log, os.O_WRONLY | os.O_APPEND)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 78
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                fault.arm(prefix, k, fault.EXIT, 0, fault.MUTATING)
                op.run(run, lambda name: os.write(lfd, os.fsencode(name) + b"\n"))
                rc = 0
            finally:
                os._exit(rc)
        os.close(lfd)
        _, st = os.waitpid(pid, 0)
        rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        what = "%s that crashed at event %d of %d" % (op.kind, k, n)
        ctx.check(rc in (77, 0), "%s: the child ended with %r" % (what, st))
        if rc == 77:
            ctx.count("crashes")
        ctx.feature(op.kind, k * 10 // n, rc)
        with open(log, "rb") as fd:
            got = [os.fsdecode(l) for l in fd.read().split(b"\n") if l]
        ctx.equal(got, order[:len(got)], what + ": deliveries")
        res = op.result(run)
        for name in got:
            ctx.count("delivered_verified")
            sel = lambda r: ({p: d for p, d in r[0].items() if p.startswith(name + "/")},
                             set(d for d in r[1] if d.startswith(name + "/")))
            a, b = sel(res), sel(ref)
            ctx.equal(a[0], b[0], "%s: the delivered bag %r is not complete" % (what, name))
            ctx.equal(a[1], b[1], "%s: the delivered bag %r is not complete" % (what, name))
        if op.inplace:
            now = oracle.read_tree(op.target(run))
            gone = set()
            if kind0 == "restore":
                gone = set(oracle.deleted_of(before) or ())
            for p, d in before.files.items():
                mine = p.startswith("data/") if kind0 == "restore" else \
                    (p.startswith("data/") or oracle.is_special(p) and p.startswith("manifest-")
                     or not oracle.is_special(p) and p.split("/")[0] not in ("multibag", "mbtags", "meta",
                                                                            "tags 0", "tags 1", "tags 2",
                                                                            "tags 3"))
                if mine and not oracle.skipped(p, gone):
                    ctx.count("payload_verified")
                    ctx.check(p in now.files, "%s: %r was lost" % (what, p))
                    ctx.check(now.files[p] == d, "%s: %r was changed" % (what, p))
        wipe()
    for p, s in zip(op.inputs, snap):
        ctx.equal(oracle.snapshot(p), s, "after crashes of %s: the input %s is not as it was" % (op.kind, p))
        ctx.count("inputs_verified")
    # what is left elsewhere must not get in the way
    op.fresh(run)
    op.run(run)
    os.chdir(home)
    again = op.result(run)
    ctx.equal(again[0], ref[0], "redoing %s after crashes" % op.kind)
    ctx.equal(again[1], ref[1], "redoing %s after crashes" % op.kind)
    ctx.count("redone")
    wipe()
    for p, s in zip(op.inputs, snap):
        ctx.equal(oracle.snapshot(p), s, "after redoing %s: the input %s is not as it was" % (op.kind, p))
    if i < 8:
        ctx.sample({"operation": op.kind, "mutating_calls": n, "crash_points": ks[:10], "deliveries": order})
