"""Monitor core: event counting, verdicts, witness/replay files, evidence, known findings, parallel case driver.

A check module (checks/pNN.py) defines

    PID, TITLE, RULE, ASSUMPTIONS
    CASES = {"quick": n, "thorough": n}
    REQUIRED = {monitor name: minimum number of times it has to fire}     (inconclusive otherwise, exit 2)
    def run_case(m, rng, i): ...      one workload execution, judged through m.check(...)
    def finish(m): ...                optional, runs in the parent on the aggregated data
    def known_probes(m): ...                optional, probes of known findings (run in the parent, once)
"""
import hashlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_VIOL = 5


class HarnessError(Exception):
    """The harness itself could not run the case (never a verdict about the code)."""


class CaseTimeout(BaseException):
    """A single case used far more CPU time than any case needs (the code under test does not terminate)."""


CASE_CPU_LIMIT = 150.0


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Skip(Exception):
    """The drawn case is outside of the property's domain (counted, no verdict)."""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (bool, int, str)) or o is None:
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return jsonable(float(o))
    if isinstance(o, np.ndarray):
        if o.size <= 24:
            return jsonable(o.tolist(), depth + 1)
        return {"shape": list(o.shape), "min": jsonable(np.min(o)), "max": jsonable(np.max(o))}
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:40]}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(o)[:40]]
    return repr(o)[:300]


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode() + np.ascontiguousarray(o).tobytes())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()


class Monitor:
    """Collects what the monitors observed during a run."""

    def __init__(self):
        self.fired = {}        # monitor name -> number of judged observations
        self.events = {}       # event name -> number of events seen
        self.keys = set()      # digests of distinct non-trivial cases
        self.samples = []
        self.violations = []
        self.findings = []     # (key, text) of reproduced known defects
        self.data = {}         # name -> list, aggregated for finish()
        self.case = None
        self.timeouts = 0
        self.cases_run = 0
        self.cases_skipped = 0
        self.errors = []

    # -- used by checks -------------------------------------------------------------------------
    def check(self, ok, name, msg="", **witness):
        self.fired[name] = self.fired.get(name, 0) + 1
        if not bool(ok):
            self.violation(name, msg, **witness)
        return bool(ok)

    def violation(self, name, msg="", **witness):
        if len(self.violations) < 40:
            self.violations.append({"monitor": name, "message": str(msg)[:600], "case": self.case,
                                    "witness": jsonable(witness)})

    def close(self, a, b, name, msg="", rtol=1e-9, atol=0.0, **witness):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.check(False, name, f"{msg}: shape {a.shape} != {b.shape}", **witness)
        with np.errstate(all="ignore"):
            bad = ~(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        ok = not bad.any()
        if not ok:
            idx = tuple(int(x[0]) for x in np.nonzero(bad)) if a.ndim else ()
            msg = f"{msg}: {int(bad.sum())}/{a.size} entries differ, first at {idx}: {a[idx]!r} vs expected {b[idx]!r}"
        return self.check(ok, name, msg, **witness)

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def distinct(self, *objs):
        self.keys.add(digest(*objs))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(kw))

    def put(self, name, value):
        self.data.setdefault(name, []).append(value)

    def finding(self, key, text):
        """Report that the listed defect `key` was reproduced (violation if it is not listed)."""
        self.findings.append((key, text, self.case))

    # -- aggregation ----------------------------------------------------------------------------
    def export(self):
        return dict(fired=self.fired, events=self.events, keys=self.keys, samples=self.samples,
                    violations=self.violations, findings=self.findings, data=self.data,
                    cases_run=self.cases_run, cases_skipped=self.cases_skipped, errors=self.errors)

    def merge(self, d):
        for k, v in d["fired"].items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in d["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        self.keys |= d["keys"]
        self.samples = (self.samples + d["samples"])[:4]
        self.violations += d["violations"]
        self.findings += d["findings"]
        for k, v in d["data"].items():
            self.data.setdefault(k, []).extend(v)
        self.cases_run += d["cases_run"]
        self.cases_skipped += d["cases_skipped"]
        self.errors += d["errors"]


def from_code_under_test(exc):
    """True if the exception passed through a frame of /repo/simcats."""
    pkg = os.path.realpath(os.path.join(REPO, "simcats")) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def malformed_result(exc):
    """True if the check could not read what the code returned: with conforming code every result has the documented structure, so the
    oracle never raises these. Private names are no observable behaviour: their absence is the harness' problem."""
    if isinstance(exc, AttributeError):
        return not (exc.name or "_").startswith("_")
    return isinstance(exc, (KeyError, IndexError, TypeError, ValueError))


def pid_num(pid):
    return int(re.sub(r"\D", "", pid))


def case_rng(seed, pid, i):
    return np.random.default_rng([seed & 0xFFFFFFFF, pid_num(pid), i])


def one_case(mod, m, seed, i):
    m.case = i
    rng = case_rng(seed, mod.PID, i)
    # global generators must not influence a verdict, but make their state a function of the case anyway
    np.random.seed((seed * 1000003 + pid_num(mod.PID) * 7919 + i) % (2 ** 32))
    import random
    random.seed(seed * 1000003 + i)
    try:
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run_case(m, rng, i)
        m.cases_run += 1
    except CaseTimeout as e:
        m.timeouts += 1
        if from_code_under_test(e):
            m.violation("terminates", f"case used more than {CASE_CPU_LIMIT} s of CPU time inside of the code under test",
                        traceback=traceback.format_exc()[-1500:])
        else:
            m.errors.append(f"case {i}: CPU limit reached outside of the code under test")
    except Skip:
        m.cases_skipped += 1
    except HarnessError:
        m.errors.append(f"case {i}: " + traceback.format_exc()[-1500:])
    except Exception as e:  # noqa
        if from_code_under_test(e):
            m.fired["no_unexpected_exception"] = m.fired.get("no_unexpected_exception", 0) + 1
            m.violation("no_unexpected_exception", f"{type(e).__name__}: {e}",
                        traceback=traceback.format_exc()[-1500:])
        elif malformed_result(e):
            m.violation("malformed_result", f"{type(e).__name__}: {e}", traceback=traceback.format_exc()[-1500:])
        else:
            m.errors.append(f"case {i}: " + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _worker(args):
    mod, seed, lo, hi, step, deadline = args
    m = Monitor()
    for i in range(lo, hi, step):
        if time.time() > deadline:
            break
        one_case(mod, m, seed, i)
        if len(m.violations) >= MAX_VIOL or len(m.errors) >= 5 or m.timeouts:
            break
    return m.export()


def load_known(pid):
    """Returns {key: text} of the findings listed for the property."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            mt = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if mt and mt.group(1) == pid:
                res[mt.group(2)] = mt.group(3)
    return res


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--cases", type=int, default=None)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.case = r["seed"], r["case"]
        tier = r.get("tier", tier)
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    n = a.cases if a.cases is not None else mod.CASES[tier]
    budget = 420 if tier == "quick" else 780
    deadline = t0 + budget
    m = Monitor()
    if a.case is not None:
        one_case(mod, m, a.seed, a.case)
        n = 1
    else:
        jobs = max(1, min(a.jobs, n))
        # interleaved chunks, several per worker, so that slow cases spread evenly
        chunks = max(1, min(n, jobs * 4))
        tasks = [(mod, a.seed, c, n, chunks, deadline) for c in range(chunks)]
        if jobs == 1:
            for t in tasks:
                m.merge(_worker(t))
        else:
            global _MOD
            _MOD = mod
            ctx = mp.get_context("fork")
            with ctx.Pool(jobs) as pool:
                for d in pool.imap_unordered(_worker_mod, [t[1:] for t in tasks]):
                    m.merge(d)
        m.case = -1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if hasattr(mod, "known_probes"):
                    mod.known_probes(m)
                if hasattr(mod, "finish") and not m.violations:
                    mod.finish(m)
        except HarnessError:
            m.errors.append(traceback.format_exc()[-1500:])
        except Exception as e:  # noqa
            if from_code_under_test(e):
                m.violation("no_unexpected_exception", f"{type(e).__name__}: {e}",
                            traceback=traceback.format_exc()[-1500:])
            elif malformed_result(e):
                m.violation("malformed_result", f"{type(e).__name__}: {e}", traceback=traceback.format_exc()[-1500:])
            else:
                m.errors.append(traceback.format_exc()[-1500:])
    return report(mod, m, tier, a, t0, n)


_MOD = None


def _worker_mod(t):
    return _worker((_MOD,) + t)


def report(mod, m, tier, a, t0, n):
    pid = mod.PID
    known = load_known(pid)
    seen = set()
    for key, text, case in m.findings:
        if key in known:
            if key not in seen:
                seen.add(key)
                print(f"KNOWN-FINDING: property={pid} {known[key]}")
        else:
            m.case = case
            m.violation(f"unlisted_finding:{key}", text)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    first = None
    for k, v in enumerate(m.violations[:MAX_VIOL]):
        p = os.path.join(evdir, "replay", f"{pid}-{k}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "seed": a.seed, "tier": tier, "case": v["case"], "violation": v,
                       "rerun": f"/opt/venv/bin/python check.py {pid} --replay {p}"}, f, indent=1)
        first = first or p
    missing = {k: (m.fired.get(k, 0), v) for k, v in getattr(mod, "REQUIRED", {}).items() if m.fired.get(k, 0) < v}
    cov = {
        "evaluations": int(m.cases_run),
        "distinct_nontrivial": len(m.keys),
        "rule": mod.RULE,
        "samples": m.samples[:4] or [{"note": "no sample recorded"}],
        "judged_observations": int(sum(m.fired.values())),
        "monitors": dict(sorted(m.fired.items())),
        "events": dict(sorted(m.events.items())),
        "cases_planned": int(n),
        "cases_outside_domain": int(m.cases_skipped),
        "known_findings_reproduced": sorted(seen),
    }
    ev = {"property": pid, "tier": tier, "seed": int(a.seed), "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(m.violations)}
    if a.case is None:
        with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if m.violations:
        for v in m.violations[:MAX_VIOL]:
            print(f"  [{v['monitor']}] case={v['case']} {v['message']}")
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if m.errors:
        print("HARNESS ERROR (inconclusive):")
        for e in m.errors[:1]:
            print(e[-1200:])
        return 2
    if a.case is None and missing:
        print(f"INCONCLUSIVE property={pid}: monitors below their minimum (seen, needed): {missing}")
        return 2
    print(f"OK property={pid} tier={tier} seed={a.seed} cases={m.cases_run} (+{m.cases_skipped} outside domain) "
          f"observations={sum(m.fired.values())} distinct={len(m.keys)} wall={ev['wall_s']}s")
    return 0
