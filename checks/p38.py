"""P38: copies, restored simulations and simulations used in parallel behave like one used alone."""
import copy
import pickle

import numpy as np

from checks.p14 import make_plan, stack
from vmon import gen, snap
from vmon.sched import Interleave
from vmon.sims import Setup

PID = "P38"
TITLE = "Copies and simulations used in parallel behave like one used alone"
RULE = ("random simulations with random stacks of noise are deep-copied and pickled at random points of a random history; original and "
        "copies continue with the same operations in random order, and have to return the same; 2-4 independent simulations are used "
        "by threads that a seeded scheduler switches at lines of the code under test, and have to return what they return one after "
        "the other; non-trivial = distinct (history, schedule)")
ASSUMPTIONS = ["simulations used by several threads share no object except for those they were built from",
               "the way an object is copied or stored may be refused (PicklingError); only an unfaithful copy is a violation"]
CASES = {"quick": 2000, "thorough": 60000}
REQUIRED = {"copy_continues": 3000, "original_continues": 2000, "same_state": 1000, "parallel_equals_alone": 4000}


def arr(x):
    return tuple(None if a is None else np.asarray(a) for a in x)


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True)
                                    for x, y in zip(a, b))


def ops_for(rng, s, n):
    """Random operations; each is a function of the simulation and returns arrays (or the name of the exception)."""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            out.append(("measure", s.request(two_d=bool(rng.random() < 0.6), n=int(rng.integers(5, 25)))[0]))
        elif k < 0.6 and s.kind == "scan":
            out.append(("scan", s.scan_request(hi=12)))
        elif k < 0.7:
            r = s.request(two_d=True)[0]
            out.append(("csd", (r["sweep_range_g1"], r["sweep_range_g2"], r["resolution"])))
        elif k < 0.8:
            out.append(("refused", None))
        elif k < 0.9:
            out.append(("offset", float(gen.u(rng, -1e-3, 1e-3))))
        else:
            out.append(("alpha", gen.u(rng, 0.8, 1.2)))
    return out


def apply(sim, op):
    name, a = op
    try:
        if name == "measure":
            return arr(sim.measure(**copy.deepcopy(a))[:3])
        if name == "scan":
            return arr(sim.measure_sensor_scan(**copy.deepcopy(a))[:3])
        if name == "csd":
            return arr(sim.ideal_csd_config.get_csd_data(*copy.deepcopy(a)))
        if name == "refused":
            return arr(sim.measure(np.array([0.0]), np.array([0.0, 1.0, 2.0]), -3)[:3])
        if name == "offset":
            sim.sensor.offset_mu_sens = sim.sensor.offset_mu_sens + a
            return ()
        sim.sensor.alpha_dot = sim.sensor.alpha_dot * a
        return ()
    except (ValueError, TypeError, IndexError) as e:
        return type(e).__name__


def build(rng):
    s = Setup(rng, res=(8, 22))
    plan, seed = make_plan(rng, s), int(rng.integers(1 << 40))
    o, p, r = stack(rng, s, seed, plan)
    if rng.random() < 0.25 and (p or r):             # several distortions draw from one generator
        g = np.random.default_rng(seed)
        for d in p + r:
            if hasattr(d, "rng"):
                d.rng = g
    if rng.random() < 0.3:                           # chains of jumps: earlier ones are replayed by later ones
        o = gen.occ_distortions(rng, s.span, int(rng.integers(2, 4)), kinds=("jumps", "jumps", "blur"))
    kw = dict(occupation_distortions=o or None, sensor_potential_distortions=p or None, sensor_response_distortions=r or None)
    return s, plan, (lambda: s.sim(**copy.deepcopy(kw)))


def dup(rng, sim):
    how = ["deepcopy", "pickle", "copied copy", "parts"][int(rng.choice(4, p=[0.4, 0.4, 0.1, 0.1]))]
    if how == "pickle":
        try:
            return how, pickle.loads(pickle.dumps(sim, protocol=int(rng.integers(2, 6))))
        except (pickle.PicklingError, AttributeError, TypeError):
            how = "deepcopy"
    if how == "parts":                               # every part copied on its own
        c = copy.copy(sim)
        memo = {}
        for n, v in list(vars(sim).items()):
            vars(c)[n] = copy.deepcopy(v, memo)
        return how, c
    c = copy.deepcopy(sim)
    return how, copy.deepcopy(c) if how == "copied copy" else c


def copies(m, rng, i):
    s, plan, make = build(rng)
    ops = ops_for(rng, s, int(rng.integers(3, 8)))
    at = int(rng.integers(0, len(ops)))
    w = dict(config=s.describe(), plan=plan, at=at, operations=ops)
    alone = make()
    want = [apply(alone, o) for o in ops]
    sim = make()
    for k in range(at):
        m.check(equal(apply(sim, ops[k]), want[k]), "same_as_twin", f"operation {k} before the copy", **w)
    twins = [dup(rng, sim) for _ in range(int(rng.integers(1, 3)))]
    m.event("copies:" + twins[0][0])
    users = [["original_continues", sim, at, "original"]] + [["copy_continues", c, at, how] for how, c in twins]
    left = list(users)
    while left:
        x = left[int(rng.integers(len(left)))]
        n = 1 if rng.random() < 0.6 else len(ops)
        for k in range(x[2], min(x[2] + n, len(ops))):
            m.check(equal(apply(x[1], ops[k]), want[k]), x[0], f"{x[3]}: operation {k} ({ops[k][0]}) after the copy differs", **w)
        x[2] += n
        if x[2] >= len(ops):
            left.remove(x)
    st = snap.public(sim)
    for how, c in twins:
        m.check(snap.public(c) == st, "same_state", f"{how}: other state after the same operations", **w)
    m.distinct(*[a for r in want for a in r])


def parallel(m, rng, i):
    n = int(rng.integers(2, 5))
    jobs = []
    shared = build(rng) if rng.random() < 0.5 else None          # all built from the same objects
    for _ in range(n):
        b = shared or build(rng)
        jobs.append((b[0], b[2], ops_for(rng, b[0], int(rng.integers(1, 4)))))
    def task(k, own=None):
        s, make, ops = jobs[k]

        def run():
            sim = make() if own is None else own
            out = [apply(sim, o) for o in ops]
            return out
        return run
    inside = rng.random() < 0.5                                   # built by the threads themselves
    want = [task(k)() for k in range(n)]
    owns = [None if inside else j[1]() for j in jobs]
    il = Interleave(rng, [task(k, owns[k]) for k in range(n)])
    got, err = il.run()
    w = dict(configs=[j[0].describe() for j in jobs], operations=[j[2] for j in jobs], switches=il.switches)
    for k in range(n):
        if err[k] is not None:
            raise err[k]
        for a, b, o in zip(want[k], got[k], jobs[k][2]):
            m.check(equal(a, b), "parallel_equals_alone", f"thread {k}: {o[0]} gives another result next to other threads", **w)
    m.event("switches", il.switches)
    m.event("distinct lines of switches", len(il.places))
    m.distinct(il.switches, *sorted(il.places)[:20])
    m.sample(switches=il.switches, mean=il.mean, threads=n, shared=shared is not None)


def run_case(m, rng, i):
    (copies if i % 2 else parallel)(m, rng, i)
