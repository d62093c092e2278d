"""Bounded exhaustive explorer used by every check.

Two search engines, both complete inside the bounds they are given:

* Ctx.explore   -- every element of a finite, deterministically generated space of
                   traces (inputs, token strings, operation sequences, faults) is
                   executed on the real svgio code next to a reference model.
* Ctx.bfs       -- explicit-state breadth-first search over operation histories.
                   A state is represented by the shortest history reaching it, live
                   objects are rebuilt by replaying the history on fresh objects,
                   and states are merged only if their canonical forms are equal.

Work is split over forked workers by position in the enumeration, so a run visits
exactly the same set whatever the number of workers is.  VERIF_SEED only rotates the
order in which the set is visited; no choice is random.
"""
import ast
import hashlib
import itertools
import json
import mmap
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMLIMIT = 3 << 30  # address space of one worker: runaway allocation becomes MemoryError
REPO = os.environ.get("SVGIO_REPO", "/repo")


def import_repo():
    """Make `import svgio` resolve to the working tree of REPO and nothing else."""
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import svgio.basic  # noqa
    import svgio.path  # noqa
    import svgio.nodes  # noqa

    got = os.path.realpath(svgio.__file__)
    want = os.path.realpath(os.path.join(REPO, "svgio")) + os.sep
    if not got.startswith(want):
        raise RuntimeError("svgio imported from %s, wanted %s" % (got, want))


class CaseTimeout(BaseException):
    pass


def _arm(timeout):
    """A limit on the processor time of a case (a busy machine raises no alarm), and a long one on the clock
    for code that waits for something."""
    signal.setitimer(signal.ITIMER_PROF, timeout)
    signal.setitimer(signal.ITIMER_REAL, max(60.0, 20.0 * timeout) if timeout else 0)


def _handlers():
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)


def _on_alarm(signum, frame):
    raise CaseTimeout()


def h64(obj):
    """64-bit digest of a canonical state (repr based; repr of floats is exact)."""
    return struct.unpack("<q", hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"),
                                                digest_size=8).digest())[0]


class Rec:
    """What one worker measured."""

    MAXSAMPLES = 3

    def __init__(self):
        self.cases = 0
        self.transitions = 0
        self.validated = 0
        self.comparisons = 0
        self.states = set()
        self.outcomes = set()
        self.viol = {}
        self.samples = []
        self.skipped = {}
        self.case = None
        self.index = -1
        self.failed_case = False

    # -- called by case functions -------------------------------------------------
    def state(self, canon):
        self.states.add(h64(canon))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def compared(self, n=1):
        self.comparisons += n

    def fail(self, key, msg, repro=None, case=None):
        """Record a violation. `key` identifies the kind of failure plus the smallest
        identification of the failing input; one entry is kept per key."""
        self.failed_case = True
        case = self.case if case is None else case
        size = len(repr(case))
        old = self.viol.get(key)
        if old is None or size < old["size"]:
            self.viol[key] = {
                "key": key,
                "size": size,
                "message": str(msg)[:4000],
                "repro": repro,
                "case": case,
                "index": self.index,
                "count": (old["count"] + 1) if old else 1,
            }
        else:
            old["count"] += 1

    def sample(self, what):
        if len(self.samples) < self.MAXSAMPLES:
            self.samples.append(what)

    def dump(self):
        return {k: getattr(self, k) for k in (
            "cases", "transitions", "validated", "comparisons", "states", "outcomes", "viol",
            "samples", "skipped")}


def _run_case(rec, fn, case, timeout, explain=repr):
    rec.case = case
    rec.failed_case = False
    rec.cases += 1
    _arm(timeout)
    try:
        fn(case, rec)
    except CaseTimeout:
        rec.fail("hang", "no answer within %.1f s on %s" % (timeout, explain(case)))
    except MemoryError:
        rec.fail("memory", "out of memory on %s" % (explain(case),))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "svgio" in f.filename and "/verif/" not in f.filename]
        at = where[-1].name if where else tb[-1].name
        rec.fail("raises:%s:%s" % (type(e).__name__, at),
                 "%s: %s on %s\n%s" % (type(e).__name__, e, explain(case), traceback.format_exc()[-2500:]))
    finally:
        _arm(0)
    if not rec.failed_case:
        rec.validated += 1


class Ctx:
    def __init__(self, pid, tier, seed, title=""):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.title = title
        self.workers = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        self.t0 = time.time()
        self.parts = []
        self.viol = {}
        self.total = Rec()
        self.assumptions = []
        self.exhaustive = True
        self.filter = None
        self.replaying = None

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- engine 1 -----------------------------------------------------------------
    def explore(self, name, gen, fn, timeout=10.0, bound="", explain=repr, workers=None):
        """Run fn(case, rec) for every case of gen()."""
        if self.filter and self.filter not in name:
            return None
        n = workers or self.workers
        t0 = time.time()
        order = list(range(n))
        rot = self.seed % n
        order = order[rot:] + order[:rot]

        def work(k, shared):
            rec = Rec()
            _handlers()
            for i, case in enumerate(gen()):
                if i % n != k:
                    continue
                rec.index = i
                shared[k * 8:k * 8 + 8] = struct.pack("<q", i)
                _run_case(rec, fn, case, timeout, explain)
                if rec.cases in (1, 7, 211):
                    rec.sample({"exploration": name, "case": explain(case)[:600]})
                if rec.viol.get("hang", {}).get("count", 0) >= 3 or len(rec.viol) > 400:
                    break  # enough to report; the run is a failing run anyway
            return rec.dump()

        recs, dead = _fork_map(order, work)
        part = self._absorb(name, recs, dead, t0, bound)
        if dead:
            for k, last in dead:
                case = next(itertools.islice(gen(), last, None), None) if last >= 0 else None
                self._add_violation(name, {"key": "crash", "size": len(repr(case)), "message":
                                           "the process executing this case died: %r" % (case,), "repro": None,
                                           "case": case, "index": last, "count": 1})
        return part

    # -- engine 2 -----------------------------------------------------------------
    def bfs(self, name, roots, ops, build, apply, canon, check, depth, timeout=10.0, bound="", enabled=None, asked="all"):
        """Explicit-state search.

        roots       list of root descriptors (plain data)
        ops         list of operation descriptors (plain data), simplest first
        build(root)                 -> fresh state object (holds the real object and the model)
        apply(state, op, rec)       -> applies op to real object and model
        canon(state)                -> canonical, hashable-by-repr value
        check(state, history, rec)  -> evaluates the invariant / comparison

        Every history runs twice: unobserved until its end, and with the check's own questions asked before each
        step ("all") or the last one ("last"), so that what an answer leaves behind must not show in later ones.
        """
        if self.filter and self.filter not in name:
            return None
        n = self.workers
        t0 = time.time()
        seen = set()
        frontier = []
        total = []
        alldead = []
        levels = []
        hists = [(ri, ()) for ri in range(len(roots))]
        for d in range(depth + 1):
            # frontier of histories to expand: at d == 0 just the roots themselves
            if d == 0:
                jobs = [(h, None) for h in hists]
            else:
                jobs = [(h, oi) for h in frontier for oi in range(len(ops))]
            if not jobs:
                break

            def work(k, shared, jobs=jobs):
                rec = Rec()
                _handlers()
                new = {}

                def one(job, rec, looks):
                    (ri, hist), oi = job
                    st = build(roots[ri])
                    mute = Rec()
                    for i, o in enumerate(hist):
                        if looks and asked == "all":
                            check(st, (roots[ri], [ops[o] for o in hist[:i]]), mute)
                        apply(st, ops[o], mute)
                    if looks:
                        check(st, (roots[ri], [ops[o] for o in hist]), mute)
                    full = hist
                    if oi is not None:
                        if enabled is not None and not enabled(st, ops[oi]):
                            return
                        apply(st, ops[oi], rec)
                        full = hist + (oi,)
                        rec.step()
                    named = (roots[ri], (["asked before each step"] if looks else []) + [ops[o] for o in full])
                    rec.case = named
                    check(st, named, rec)
                    if not rec.failed_case:
                        c = h64(canon(st))
                        rec.states.add(c)
                        if c not in seen and c not in new:
                            new[c] = (ri, full)
                for i in range(k, len(jobs), n):
                    rec.index = i
                    shared[k * 8:k * 8 + 8] = struct.pack("<q", i)
                    (ri, hist), oi = jobs[i]
                    named = (roots[ri], [ops[o] for o in hist] + ([ops[oi]] if oi is not None else []))

                    def body(case, rec, job=jobs[i]):
                        one(job, rec, False)
                        if not rec.failed_case and job[1] is not None:  # caches filled on the way must not show
                            one(job, rec, True)
                    _run_case(rec, body, named, timeout)
                    if rec.cases in (2, 97):
                        rec.sample({"exploration": name, "history": repr(named)[:600]})
                    if rec.viol.get("hang", {}).get("count", 0) >= 3 or len(rec.viol) > 400:
                        break
                out = rec.dump()
                out["new"] = new
                return out

            recs, dead = _fork_map(list(range(n)), work)
            total += recs
            alldead += dead
            nxt = {}
            for r in recs:
                for c, h in r["new"].items():
                    if c not in seen:
                        if c not in nxt or h < nxt[c]:
                            nxt[c] = h
            seen.update(nxt)
            frontier = sorted(nxt.values())
            levels.append(len(frontier))
            if any(r["viol"] for r in recs) or dead:
                break  # shortest counterexamples found; deeper levels would only repeat them
        part = self._absorb(name, total, alldead, t0, bound)
        part["new_states_per_depth"] = levels
        part["depth"] = depth
        part["fixpoint"] = bool(levels and levels[-1] == 0)
        if alldead:
            self._add_violation(name, {"key": "crash", "size": 0, "message": "a worker process died", "repro": None,
                                       "case": None, "index": -1, "count": 1})
        return part

    # -- bookkeeping --------------------------------------------------------------
    def _absorb(self, name, recs, dead, t0, bound):
        part = {"name": name, "bound": bound}
        states, outcomes, skipped = set(), set(), {}
        for key in ("cases", "transitions", "validated", "comparisons"):
            part[key] = sum(r[key] for r in recs)
        for r in recs:
            states |= r["states"]
            outcomes |= r["outcomes"]
            for k, v in r["skipped"].items():
                skipped[k] = skipped.get(k, 0) + v
            for v in r["viol"].values():
                self._add_violation(name, v)
            for s in r["samples"]:
                if len([x for x in self.total.samples if x.get("exploration") == name]) < 2:
                    self.total.samples.append(s)
        part["distinct_states"] = len(states)
        part["distinct_outcomes"] = len(outcomes)
        if skipped:
            part["outside_property_domain"] = skipped
        part["wall_s"] = round(time.time() - t0, 2)
        self.total.states |= {(name, s) for s in states}
        for key in ("cases", "transitions", "validated", "comparisons"):
            setattr(self.total, key, getattr(self.total, key) + part[key])
        self.parts.append(part)
        if os.environ.get("MC_VERBOSE"):
            print("  %-34s cases=%d states=%d transitions=%d comparisons=%d outcomes=%d viol=%d %.1fs %s" % (
                name, part["cases"], part["distinct_states"], part["transitions"], part["comparisons"],
                part["distinct_outcomes"], len(self.viol), part["wall_s"], skipped or ""), flush=True)
        return part

    def _add_violation(self, name, v):
        v = dict(v, exploration=name)
        key = "%s/%s" % (name, v["key"])
        v["full_key"] = key
        old = self.viol.get(key)
        if old is None or v["size"] < old["size"]:
            if old:
                v["count"] += old["count"]
            self.viol[key] = v
        else:
            old["count"] += v["count"]

    def finish(self):
        known = load_known(self.pid)
        fresh = []
        for key, v in sorted(self.viol.items(), key=lambda kv: (kv[1]["size"], kv[0])):
            hit = None
            for pat, text in known:
                if pat == key:
                    hit = text
            if hit is None:
                fresh.append(v)
        seen_known = [(pat, text) for pat, text in known if pat in self.viol]
        for pat, text in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        cov = {
            "states": len(self.total.states),
            "transitions": self.total.transitions,
            "traces_validated_against_impl": self.total.validated,
            "traces_executed": self.total.cases,
            "comparisons_with_model": self.total.comparisons,
            "samples": self.total.samples[:12] or ["(none)"],
            "explorations": self.parts,
            "exhaustive": self.exhaustive,
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
            "known_findings_seen": [t for _, t in seen_known],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        print("%s [%s] %d traces executed, %d states, %d transitions, %d comparisons, %.1f s" % (
            self.pid, self.tier, cov["traces_executed"], cov["states"], cov["transitions"],
            cov["comparisons_with_model"], ev["wall_s"]))
        rdir = os.path.join(VERIF, "evidence", "replay")
        if os.path.isdir(rdir):
            for old in os.listdir(rdir):
                if old.startswith(self.pid + "-") and os.path.join("evidence", "replay", old) != self.replaying:
                    os.unlink(os.path.join(rdir, old))
        if not fresh:
            if self.total.validated == 0:
                print("nothing was explored", file=sys.stderr)
                return 2
            return 0
        os.makedirs(rdir, exist_ok=True)
        limit = int(os.environ.get("MC_SHOW", "5"))
        for n, v in enumerate(fresh):
            path = os.path.join(rdir, "%s-%d.json" % (self.pid, n))
            if n < max(limit, 20):
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "exploration": v["exploration"], "key": v["full_key"],
                               "message": v["message"], "case": repr(v["case"]), "occurrences": v["count"],
                               "repro": v["repro"],
                               "replay_with": "./run.sh %s --replay %s" % (self.pid, os.path.relpath(path, VERIF))},
                              f, indent=1)
            if n < limit:
                print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, VERIF)))
                print("   key: %s  (x%d)" % (v["full_key"], v["count"]))
                for line in str(v["message"]).splitlines()[:12]:
                    print("   " + line)
        if len(fresh) > limit:
            print("   ... and %d more kinds of violation" % (len(fresh) - limit))
        return 1


def _fork_map(ks, work):
    """Run work(k, shared) in a forked child for every k; returns (results, dead)."""
    shared = mmap.mmap(-1, 8 * (max(ks) + 1))
    for k in ks:
        shared[k * 8:k * 8 + 8] = struct.pack("<q", -1)
    sys.stdout.flush()
    sys.stderr.flush()
    if os.environ.get("MC_INPROC"):
        return [work(k, shared) for k in ks], []
    kids = []
    for k in ks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, MEMLIMIT))
                data = pickle.dumps(work(k, shared), protocol=4)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((k, pid, r))
    res, dead = [], []
    import threading
    bufs = {}

    def reader(k, r):
        with os.fdopen(r, "rb") as f:
            bufs[k] = f.read()
    ths = [threading.Thread(target=reader, args=(k, r)) for k, _, r in kids]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for k, pid, r in kids:
        _, status = os.waitpid(pid, 0)
        if status == 0 and bufs.get(k):
            res.append(pickle.loads(bufs[k]))
        else:
            dead.append((k, struct.unpack("<q", shared[k * 8:k * 8 + 8])[0]))
    return res, dead


def load_known(pid):
    """Lines `finding: property=<id> key=<key> :: <what fails>` of KNOWN_FINDINGS.
    `fixed:` lines are history only and suppress nothing."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.rstrip("\n")
        if not line.startswith("finding: property=%s " % pid):
            continue
        rest = line.split(" key=", 1)[1]
        key, text = rest.split(" :: ", 1)
        out.append((key, text))
    return out


# -- small helpers shared by checks ----------------------------------------------------

def close(a, b, tol=1e-9):
    """Equal up to tol, relative to magnitudes above 1."""
    if a is None or b is None:
        return a is b
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def close_pt(p, q, tol=1e-9):
    if p is None or q is None:
        return p is None and q is None
    scale = max(1.0, abs(p[0]), abs(p[1]), abs(q[0]), abs(q[1]))
    return abs(p[0] - q[0]) <= tol * scale and abs(p[1] - q[1]) <= tol * scale


def rnd(v, n=9):
    if v is None:
        return None
    r = round(float(v), n)
    return 0.0 if r == 0 else r


def product(*a, **k):
    return itertools.product(*a, **k)
