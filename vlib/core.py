"""
Driver of the runtime-monitoring checks.

A property module (props/<id>.py) supplies

    ID, TITLE-independent metadata: LEVEL, RULE, ASSUMPTIONS, N = {tier: cases}
    REQUIRED     counters that must be non-zero (else the run is inconclusive)
    case(ctx, i) run one execution of the real code under the monitors

and this driver shards the cases over forked workers, collects what the
monitors observed, writes the evidence file and decides the exit status:

    0 held on everything explored, 1 violated, 2 inconclusive / harness error
"""
import os, sys, json, time, signal, shutil, traceback, importlib, hashlib
import random, logging, gc, errno

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CPU_LIMIT = 120       # CPU seconds for one case: far above anything legitimate
WALL_LIMIT = 700      # whole run, seconds (inconclusive when it passes)
if os.environ.get("VERIF_TIER") == "thorough":
    WALL_LIMIT = 3600


class Violation(Exception):
    """the property was observed to be broken"""
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


class CpuLimit(BaseException):
    """a case used an absurd amount of CPU time (does not terminate)"""


class Ctx(object):
    def __init__(self, mod, idx, tier, worker):
        self.mod = mod
        self.idx = idx
        self.tier = tier
        self.rng = random.Random("%d/%s/%d" % (SEED, mod.ID, idx))
        self.worker = worker
        self.counters = {}
        self.features = set()
        self.known_hits = {}
        self.sample_ = None
        self.note_ = []
        self._dir = None

    @property
    def dir(self):
        "a fresh scratch directory, removed after the case"
        if self._dir is None:
            # (nested so that ../.. from anything in it still is in scratch)
            self._dir = os.path.join(SCRATCH, "w%d" % self.worker,
                                     "c%d" % self.idx, "in", "here")
            os.makedirs(self._dir)
        return self._dir

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def count(self, event, n=1):
        self.counters[event] = self.counters.get(event, 0) + n

    def feature(self, *key):
        self.features.add("|".join(str(k) for k in key))

    def note(self, text):
        "describe the execution (kept for the replay file)"
        self.note_.append(str(text)[:2000])

    def sample(self, obj):
        self.sample_ = obj

    def fail(self, msg, **data):
        raise Violation(msg, **data)

    def check(self, cond, msg, **data):
        self.count("assertions")
        if not cond:
            raise Violation(msg, **data)

    def equal(self, got, want, msg, **data):
        self.count("assertions")
        if got != want:
            raise Violation(msg + ": " + diff(got, want), **data)

    def known(self, key, msg):
        "a violation whose mechanism is listed in known_findings.txt"
        if key not in known_keys(self.mod.ID):
            raise Violation(msg)
        self.known_hits[key] = msg

    def cleanup(self):
        if self._dir:
            top = os.path.join(SCRATCH, "w%d" % self.worker, "c%d" % self.idx)
            for root, dirs, files in os.walk(top):
                for d in dirs:
                    p = os.path.join(root, d)
                    if not os.path.islink(p):
                        os.chmod(p, 0o755)
            shutil.rmtree(top, ignore_errors=True)
            self._dir = None


def diff(got, want):
    "a short description of how two values differ"
    try:
        if isinstance(got, dict) and isinstance(want, dict):
            out = []
            for k in sorted(set(got) | set(want), key=str):
                if k not in got:
                    out.append("missing %r" % (k,))
                elif k not in want:
                    out.append("unexpected %r" % (k,))
                elif got[k] != want[k]:
                    out.append("%r: got %r, expected %r" % (k, got[k], want[k]))
            return "; ".join(out[:6])[:1500]
        if isinstance(got, (set, frozenset)) and isinstance(want, (set, frozenset)):
            return ("missing %r, unexpected %r" %
                    (sorted(want - got, key=str)[:6],
                     sorted(got - want, key=str)[:6]))[:1500]
    except Exception:
        pass
    return ("got %r, expected %r" % (got, want))[:1500]


_known = {}
def known_keys(pid):
    "keys of the open findings listed for a property: 'known: property=ID key=K ...'"
    if pid not in _known:
        keys = {}
        p = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p, encoding="utf-8"):
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                if f.get("property") == pid:
                    keys[f["key"]] = line.split(None, 3)[3]
        _known[pid] = keys
    return _known[pid]


def _worker(mod, wid, nw, tier, ncases, outpath, stopflag, deadline):
    logging.disable(logging.CRITICAL)
    from . import mon
    mon.install(SCRATCH)

    def on_cpu(sig, frm):
        raise CpuLimit()
    signal.signal(signal.SIGPROF, on_cpu)

    lines = _line_monitor()
    if hasattr(mod, "worker_init"):
        mod.worker_init(wid)
    with open(outpath, "w", encoding="utf-8") as out:
        for idx in range(wid, ncases, nw):
            if os.path.exists(stopflag):
                break
            if time.monotonic() > deadline:
                out.write(json.dumps({"idx": idx, "timeout": True}) + "\n")
                break
            ctx = Ctx(mod, idx, tier, wid)
            rec = {"idx": idx}
            out.write(json.dumps({"start": idx}) + "\n")
            out.flush()
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            try:
                os.chdir(SCRATCH)
                mon.reset()
                mod.case(ctx, idx)
            except Violation as ex:
                rec["violation"] = ex.msg
                rec["data"] = {k: repr(v)[:4000] for k, v in ex.data.items()}
            except CpuLimit:
                rec["violation"] = "did not finish within %d s of CPU time" % CPU_LIMIT
                rec["trace"] = traceback.format_exc()[-3000:]
            except mon.Escape as ex:
                rec["violation"] = str(ex)
                rec["trace"] = traceback.format_exc()[-3000:]
            except MemoryError:
                rec["error"] = traceback.format_exc()[-3000:]
            except Exception as ex:
                # nothing the workloads do is allowed to make the code fail
                # unless the case itself handles it
                # (or to make its outputs unreadable to the oracles)
                tb = traceback.format_exc()
                if isinstance(ex, OSError) and ex.errno in \
                   (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM):
                    rec["error"] = tb[-3000:]
                else:
                    rec["violation"] = "unexpected %s%s: %s" % \
                        (type(ex).__name__,
                         (not _from_repo(ex) and " while examining the outcome") or "",
                         str(ex)[:500])
                    rec["trace"] = tb[-3000:]
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            esc = mon.escapes()
            if esc and "violation" not in rec:
                rec["violation"] = "attempt to modify a file outside of the " \
                                   "scratch area: " + str(esc[0])
            rec["counters"] = ctx.counters
            rec["features"] = sorted(ctx.features)
            rec["known"] = ctx.known_hits
            if ctx.sample_ is not None:
                rec["sample"] = ctx.sample_
            if "violation" in rec or "error" in rec:
                rec["note"] = ctx.note_
            try:
                ctx.cleanup()
            except Exception:
                pass
            out.write(json.dumps(rec, default=repr) + "\n")
            out.flush()
            if "violation" in rec or "error" in rec:
                open(stopflag, "w").close()
                break
        out.write(json.dumps({"done": wid, "lines": sorted(lines)}) + "\n")


def _line_monitor():
    "collect the lines of the code under test that are executed"
    seen = set()
    if not hasattr(sys, "monitoring"):
        return seen
    mo = sys.monitoring
    pre = REPO.rstrip("/") + "/multibag/"

    def on_line(code, line):
        if code.co_filename.startswith(pre):
            seen.add("%s:%d" % (code.co_filename[len(pre):], line))
        return mo.DISABLE
    mo.use_tool_id(mo.COVERAGE_ID, "verif")
    mo.register_callback(mo.COVERAGE_ID, mo.events.LINE, on_line)
    mo.set_events(mo.COVERAGE_ID, mo.events.LINE)
    return seen


def _from_repo(ex):
    "did the exception pass through the code under test?"
    tb = ex.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO.rstrip("/") + "/multibag/"):
            return True
        tb = tb.tb_next
    return False


def main(argv):
    pid, tier = argv[1], argv[2]
    t0 = time.monotonic()
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if not SCRATCH:
        print("no scratch directory")
        return 2
    try:
        import multibag
        if not os.path.abspath(multibag.__file__).startswith(REPO.rstrip("/") + "/"):
            print("multibag was imported from %s" % multibag.__file__)
            return 2
        mod = importlib.import_module("props." + pid.lower())
    except Exception:
        traceback.print_exc()
        return 2
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    n = mod.N[tier] if not callable(mod.N) else mod.N(tier)
    if SCALE < 1:            # (only for tools/mutate.py)
        n = max(8, int(n * SCALE))
    one = os.environ.get("VERIF_CASE")
    nw = min(NPROC, n)
    sys.stdout.flush()
    stopflag = os.path.join(SCRATCH, "stop")
    outs, pids = [], {}
    gc.freeze()
    for w in range(nw):
        outp = os.path.join(SCRATCH, "out.%d.jsonl" % w)
        outs.append(outp)
        p = os.fork()
        if p == 0:
            rc = 3
            try:
                if one is not None:
                    if w == 0:
                        _worker(mod, int(one), 10**9, tier, int(one) + 1, outp,
                                stopflag, t0 + WALL_LIMIT)
                else:
                    _worker(mod, w, nw, tier, n, outp, stopflag, t0 + WALL_LIMIT)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[p] = w
    died = {}
    hung = False
    hard = t0 + WALL_LIMIT + 120
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.monotonic() > hard:
                hung = True
                for q in pids:
                    os.kill(q, signal.SIGKILL)
                hard += 1e9
            time.sleep(0.02)
            continue
        w = pids.pop(p, None)
        if st != 0 and w is not None:
            died[w] = st
    counters, features, samples, known, executed = {}, set(), [], {}, set()
    violations, errors, evals, timeouts = [], [], 0, 0
    for w, outp in enumerate(outs):
        last = None
        finished = False
        if not os.path.exists(outp):
            continue
        for line in open(outp, encoding="utf-8"):
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            if "start" in rec:
                last = rec["start"]
                continue
            if "done" in rec:
                finished = True
                executed.update(rec.get("lines", []))
                continue
            if rec.get("timeout"):
                timeouts += 1
                continue
            last = None
            evals += 1
            for k, v in rec.get("counters", {}).items():
                counters[k] = counters.get(k, 0) + v
            features.update(rec.get("features", []))
            known.update(rec.get("known", {}))
            if "sample" in rec and len(samples) < 6:
                samples.append(rec["sample"])
            if "violation" in rec:
                violations.append(rec)
            if "error" in rec:
                errors.append(rec)
        if w in died and not finished and last is not None and not hung:
            st = died[w]
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGKILL:
                violations.append({"idx": last, "violation":
                                   "the process was ended by signal %d" % os.WTERMSIG(st)})
            else:
                errors.append({"idx": last, "error": "worker ended with status %r" % st})
    missing = [c for c in getattr(mod, "REQUIRED", []) if not counters.get(c) and SCALE >= 1]
    extra = mod.finish(counters, features, tier) if hasattr(mod, "finish") else {}
    wall = time.monotonic() - t0

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(features),
        "rule": mod.RULE,
        "samples": samples or ["(no sample recorded)"],
        "observed_events": dict(sorted(counters.items())),
    }
    cov.update(extra or {})
    perfile = {}
    for x in executed:
        f = x.split(":")[0]
        perfile[f] = perfile.get(f, 0) + 1
    cov["lines_of_multibag_executed"] = dict(sorted(perfile.items()))
    if os.environ.get("VERIF_COV"):
        with open(os.environ["VERIF_COV"], "a") as fd:
            fd.write("".join(x + "\n" for x in sorted(executed)))
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, pid + ".json"), "w", encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1, default=repr)
        fd.write("\n")

    for key in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known_keys(pid)[key]))
    print("%s %s: %d executions, %d distinct situations, %d assertions, %.1f s"
          % (pid, tier, evals, len(features), counters.get("assertions", 0), wall))
    if violations:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        v = min(violations, key=lambda r: r["idx"])
        rp = os.path.join(rdir, "%s-%s-%d-%d.json" % (pid, tier, SEED, v["idx"]))
        v = dict(v)
        v.update({"property": pid, "tier": tier, "seed": SEED,
                  "replay": "VERIF_SEED=%d VERIF_CASE=%d bash run.sh %s %s"
                            % (SEED, v["idx"], pid, tier)})
        with open(rp, "w", encoding="utf-8") as fd:
            json.dump(v, fd, indent=1, default=repr)
        print(v["violation"][:1500])
        if v.get("trace"):
            print(v["trace"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        print("HARNESS ERROR in case %s:\n%s" % (errors[0]["idx"], errors[0]["error"]))
        return 2
    if one is None:
        if hung or timeouts:
            print("INCONCLUSIVE: out of time")
            return 2
        if missing:
            print("INCONCLUSIVE: never observed: " + ", ".join(missing))
            return 2
        if evals != n:
            print("INCONCLUSIVE: only %d of %d executions were completed" % (evals, n))
            return 2
    return 0


if __name__ == "__main__":
    # (so that there is one instance of this module, known as vlib.core)
    from vlib import core
    sys.exit(core.main(sys.argv))
