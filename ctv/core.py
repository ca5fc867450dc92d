"""Monitor runtime shared by all checks.

A check module defines WORKLOADS = [(name, fn, n_quick, n_thorough)], REQUIRE = {event: minimum}
and RULE (text).  fn(mon, rng) drives the real clustertools code and reports what the monitor
observed through mon.ev/mon.ok/mon.close.  Every case is a function of (property, workload, VERIF_SEED,
index) only, so a violation is replayed from those four values.
"""
import contextlib, hashlib, importlib, io, json, os, pickle, signal, sys, tempfile, time, traceback, warnings
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CT_REPO", "/repo")


class CaseTimeout(BaseException):
    pass


def known_findings(prop):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                mech, _, what = rest.partition(" ")
                assert mech.startswith("mech="), line
                out[mech[5:]] = what
    return out


class Mon:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = {}
        self.evaluations = 0
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.violations = {}      # mech -> first witness
        self.vcount = {}
        self.known = known_findings(prop)
        self.known_hit = {}
        self.case = None
        self.notes = []
        self.harness_errors = []
        self.trace = []

    # --- observation -------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def seen(self, *key):
        self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def log(self, *a):
        """Append to the history of the current case (kept for the witness)."""
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # --- oracle ------------------------------------------------------
    def fail(self, mech, msg):
        self.evaluations += 1
        self._bad(mech, msg)
        return False

    def _bad(self, mech, msg):
        if mech in self.known:
            self.known_hit.setdefault(mech, msg)
            return
        self.vcount[mech] = self.vcount.get(mech, 0) + 1
        if mech not in self.violations:
            self.violations[mech] = dict(property=self.prop, mechanism=mech, message=str(msg)[:4000],
                                         workload=self.case[0], index=self.case[1], seed=self.seed,
                                         tier=self.tier, history=list(self.trace))

    def ok(self, cond, mech, msg=""):
        self.evaluations += 1
        if not bool(cond):
            self._bad(mech, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, got, want, mech, rtol=1e-9, atol=0.0, msg=""):
        self.evaluations += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self._bad(mech, "%s: not numeric: %r vs %r (%s)" % (msg, got, want, e))
            return False
        if g.shape != w.shape and not (g.size == w.size == 1):
            self._bad(mech, "%s: shape %s expected %s" % (msg, g.shape, w.shape))
            return False
        g = g.reshape(w.shape)
        bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
            self._bad(mech, "%s: %d of %d differ; first at %s: got %r expected %r" %
                      (msg, int(np.sum(bad)), bad.size, tuple(int(k) for k in i), float(g[i]), float(w[i])))
            return False
        return True

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            yield


def _from_repo(tb):
    """True when the innermost frames of the traceback pass through the code under test."""
    hit = False
    for fr, _ in traceback.walk_tb(tb):
        if os.path.realpath(fr.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
            hit = True
    return hit


def _sig(tb):
    """Function names only (no line numbers) of the repository frames."""
    names = [fr.f_code.co_name for fr, _ in traceback.walk_tb(tb)
             if os.path.realpath(fr.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep)]
    return names[0] if names else "?"


def run_case(mon, mod, name, fn, i, limit):
    mon.case = (name, i)
    mon.trace = []
    crc = int(hashlib.sha1(("%s/%s" % (mon.prop, name)).encode()).hexdigest()[:8], 16)
    rng = np.random.default_rng([mon.seed, crc, i])
    np.random.seed(int(rng.integers(0, 2**31 - 1)))

    def onalarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        with mon.quiet():
            fn(mon, rng)
        mon.cases += 1
    except CaseTimeout:
        mon.harness_errors.append("timeout after %ds in %s[%d]" % (limit, name, i))
    except Exception as e:
        tb = sys.exc_info()[2]
        txt = "".join(traceback.format_exception(type(e), e, tb)[-8:])
        if _from_repo(tb):
            mon.fail("exception:%s:%s:%s" % (name, _sig(tb), type(e).__name__),
                     "clustertools raised on a documented call: " + txt)
        elif isinstance(e, (TypeError, ValueError, IndexError, AttributeError, KeyError, AssertionError)):
            # the monitor could not digest what the code under test returned: wrong shape, type or None
            mon.fail("unusable-result:%s:%s" % (name, type(e).__name__), "the monitor cannot interpret a returned value: " + txt)
        else:
            mon.harness_errors.append("%s[%d]: %s" % (name, i, txt))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def work(mon, mod, todo, t0, cap, limit, per):
    """Run the cases in order until the time cap; True when cases were left out."""
    for _, k, name, fn, i in todo:
        if time.time() - t0 > cap:
            return True
        t1 = time.time()
        run_case(mon, mod, name, fn, i, limit)
        c = per.setdefault(name, [0, 0.0]); c[0] += 1; c[1] += time.time() - t1
    return False


def fork_work(mon, mod, todo, t0, cap, limit, per, jobs):
    """Deal the cases to forked workers and merge what their monitors observed (same cases, same result as one process)."""
    sys.stdout.flush(); sys.stderr.flush()
    kids = []
    for j in range(jobs):
        f = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                trunc = work(mon, mod, todo[j::jobs], t0, cap, limit, per)
                pickle.dump(dict(events=mon.events, evaluations=mon.evaluations, cases=mon.cases, distinct=mon.distinct, samples=mon.samples,
                                 violations=mon.violations, vcount=mon.vcount, known_hit=mon.known_hit, harness=mon.harness_errors, per=per, trunc=trunc), f)
                f.flush(); rc = 0
            finally:
                os._exit(rc)
        kids.append((pid, f))
    truncated = False
    for j, (pid, f) in enumerate(kids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            mon.harness_errors.append("worker %d ended with status %d" % (j, st)); f.close(); continue
        f.seek(0); d = pickle.load(f); f.close()
        for k, v in d["events"].items():
            mon.ev(k, v)
        mon.evaluations += d["evaluations"]; mon.cases += d["cases"]; mon.distinct |= d["distinct"]; mon.samples = (mon.samples + d["samples"])[:6]
        for m, w in d["violations"].items():
            if m not in mon.violations or (w["workload"], w["index"]) < (mon.violations[m]["workload"], mon.violations[m]["index"]):
                mon.violations[m] = w
        for m, n in d["vcount"].items():
            mon.vcount[m] = mon.vcount.get(m, 0) + n
        for m, w in d["known_hit"].items():
            mon.known_hit.setdefault(m, w)
        mon.harness_errors += d["harness"]; truncated |= d["trunc"]
        for n, c in d["per"].items():
            p = per.setdefault(n, [0, 0.0]); p[0] += c[0]; p[1] += c[1]
    return truncated


def main(prop, tier, replay=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    only = os.environ.get("CT_ONLY")
    rp = None
    if replay:
        rp = json.load(open(replay))
        seed, tier = rp["seed"], rp["tier"]
    sys.path.insert(0, ROOT)
    mon = Mon(prop, tier, seed)
    with mon.quiet():
        mod = importlib.import_module("checks.%s" % prop.lower())
        import clustertools
    src = os.path.realpath(clustertools.__file__)
    assert src.startswith(os.path.realpath(REPO) + os.sep), "clustertools imported from %s" % src
    cap = getattr(mod, "CAP", {}).get(tier, 240 if tier == "quick" else 780)
    limit = getattr(mod, "CASE_LIMIT", 120)
    truncated = False
    per = {}
    if rp:
        for (name, fn, nq, nt) in mod.WORKLOADS:
            if name == rp["workload"]:
                run_case(mon, mod, name, fn, rp["index"], limit)
    else:
        # round robin over workloads so that a cap never starves one of them
        todo = []
        for k, (name, fn, nq, nt) in enumerate(mod.WORKLOADS):
            if only and name not in only.split(","):
                continue
            n = int(nq * getattr(mod, "QF", 15) if tier == "quick" else nt * getattr(mod, "TF", 8))
            for i in range(n):
                todo.append(((i + 0.5) / n, k, name, fn, i))
        todo.sort(key=lambda t: (t[0], t[1]))
        jobs = 1 if getattr(mod, "SERIAL", False) else max(1, min(int(os.environ.get("CT_JOBS", "8")), os.cpu_count() or 1, len(todo)))
        truncated = work(mon, mod, todo, t0, cap, limit, per) if jobs == 1 else fork_work(mon, mod, todo, t0, cap, limit, per, jobs)
    wall = time.time() - t0
    missing = [] if (rp or only) else ["%s: observed %d, need %d" % (k, mon.events.get(k, 0), v)
                             for k, v in getattr(mod, "REQUIRE", {}).items() if mon.events.get(k, 0) < v]
    samples = mon.samples or ["(no sample recorded)"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2),
              violations=len(mon.violations), assumptions=getattr(mod, "ASSUMPTIONS", []),
              coverage=dict(evaluations=mon.evaluations, distinct_nontrivial=len(mon.distinct), rule=mod.RULE,
                            samples=samples, cases_run=mon.cases, events=mon.events,
                            workloads={k: dict(cases=v[0], seconds=round(v[1], 1)) for k, v in per.items()},
                            truncated_by_time_cap=truncated,
                            known_findings_observed=sorted(mon.known_hit),
                            violations_by_mechanism=mon.vcount,
                            inconclusive=missing + mon.harness_errors[:5]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not rp and not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, %.1fs" %
          (prop, tier, seed, mon.cases, mon.evaluations, len(mon.distinct), wall))
    for k in sorted(mon.events):
        print("  observed %-40s %d" % (k, mon.events[k]))
    if os.environ.get("CT_TIMES"):
        for k, v in per.items():
            print("  time %-30s %4d cases %.2fs" % (k, v[0], v[1]))
    for m in sorted(mon.known_hit):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, mon.known[m], m))
    for e in (missing + [h[-900:] for h in mon.harness_errors])[:4]:
        print("INCONCLUSIVE: " + e)
    if mon.violations:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for m, w in mon.violations.items():
            path = os.path.join("evidence", "replay", "%s-%s.json" % (prop, hashlib.sha1(m.encode()).hexdigest()[:10]))
            json.dump(w, open(os.path.join(ROOT, path), "w"), indent=1, default=str)
            print("  mechanism %s (x%d): %s" % (m, mon.vcount[m], w["message"][:1500]))
            if os.environ.get("CT_HIST"):
                print("    history: " + " | ".join(w["history"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if mon.harness_errors or missing:
        return 3
    return 0
