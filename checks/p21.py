"""P21: chained occupation distortions are replayed consistently while a distortion regenerates parts of the diagram."""
import copy

import numpy as np

from vmon import gen, jumps, probes

PID = "P21"
TITLE = "Chained occupation distortions are replayed consistently"
RULE = ("random lists of recording affine distortions with sampled factors, blurring and dot jumps on a synthetic diagram in which every "
        "shift is recognisable; the scan is decoded against the composed diagram, the call trace is judged online, and generator states "
        "are compared with runs without the regenerating distortion; non-trivial = distinct shift pattern showing regenerated data")
ASSUMPTIONS = ["blurring is combined with jumps across the blurred rows (regenerated parts are blurred over the same extent)"]
CASES = {"quick": 900, "thorough": 25000}
REQUIRED = {"composed_diagram": 200, "replay_frozen": 200, "replay_parameters": 200, "later_not_involved": 150, "state_as_alone": 250,
            "same_shifts_as_alone": 150, "two_jumps": 120, "blurred_rows": 100}


def run_case(m, rng, i):
    probes.take()
    [affine, affine, two_jumps, two_jumps_1d, blurred][i % 5](m, rng)


def window(rng, two_d, axis=None):
    w = gen.u(rng, 0.01, 0.05)
    h = w * np.exp(gen.u(rng, -0.5, 0.5))
    a, b = gen.u(rng, -0.3, 0, 2)
    v1, v2 = gen.flip(rng, np.array([a, a + w])), gen.flip(rng, np.array([b, b + h]))
    if not two_d and axis is not None and rng.random() < 0.5:
        (v2 if axis == 1 else v1)[:] = (v2 if axis == 1 else v1)[0]
    return v1, v2


def mk_jump(rng, v, n, axis, ratio=1.0, lam=4.0):
    from simcats.distortions import OccupationDotJumps
    ext = abs(v[1] - v[0])
    return OccupationDotJumps(scale=float(gen.u(rng, 1.5, 5)) * ext / n, lam=lam * ext / n, axis=axis, ratio=ratio,
                              rng=np.random.default_rng(int(rng.integers(1 << 40))))


def earlier(rng, kw):
    """Earlier measurement of the same simulation (other window, resolution, active distortions), or None."""
    if rng.random() < 0.5:
        return None
    two_d = np.ndim(kw["resolution"]) > 0
    return dict(kw=kw if rng.random() < 0.4 else {**{k: kw[k] - 0.001 for k in ("sweep_range_g1", "sweep_range_g2")},
                                                   "resolution": np.array(rng.integers(8, 20, 2)) if two_d else int(rng.integers(8, 20))},
                off=str(rng.choice(["none", "lam", "scale"])), axis=int(rng.integers(2)))


def prepare(d, warm):
    """State of a jump distortion set after the earlier measurement (a changed parameter has to be effective at once)."""
    if warm is None or not hasattr(d, "lam"):
        return
    if warm["off"] != "none" and d.axis == warm["axis"]:
        setattr(d, warm["off"], 0.0)


def measure(csd, dist, kw, warm=None):
    """Returns occupations, labels, distortions of the simulation, trace."""
    from simcats import Simulation
    sim = Simulation(ideal_csd_config=csd, sensor=probes.ProbeSensor(), occupation_distortions=copy.deepcopy(dist))
    if warm is not None:
        sim.measure(**warm["kw"])
        for d in sim.occupation_distortions:
            prepare(d, warm)
    probes.take()
    _, o, l, _ = sim.measure(**kw)
    return o, l, sim.occupation_distortions, probes.take()


def state(d):
    """Everything reported by a distortion plus its generator."""
    out = [getattr(d, "activated", None), getattr(d, "latest_sigma", None), getattr(d, "last", None)]
    if hasattr(d, "rng"):
        out.append(repr(d.rng.bit_generator.state))
    p = getattr(d, "sigma", None)
    if hasattr(p, "last_sample"):
        out += [p.last_sample(), repr(p)]
    return out


def affine(m, rng):
    two_d = rng.random() < 0.6
    axis = int(rng.integers(2))
    v1, v2 = window(rng, two_d, axis)
    n = gen.resolution(rng, True, (8, 26), None)
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(n) if two_d else int(n[0]))
    nj = n[1 - axis] if two_d else n[0]
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 1, 4, 4)), flat="labels" if rng.random() < 0.2 else "")

    def probe(name):
        return probes.ProbeOcc(name, a=float(gen.u(rng, 0.5, 1.5)), b=float(gen.u(rng, -0.3, 0.3)), c=int(rng.integers(0, 3)),
                               inplace=rng.random() < 0.5, sampled=rng.random() < 0.7, seed=int(rng.integers(1 << 30)))
    before = [probe(f"a{k}") for k in range(int(rng.integers(1, 3)))]
    after = [probe(f"c{k}") for k in range(int(rng.integers(0, 3)))]
    b = mk_jump(rng, v1 if axis == 1 else v2, nj, axis)
    warm = earlier(rng, kw)
    o, l, ds, tr = measure(csd, before + [b] + after, kw, warm)
    w = dict(two_d=two_d, axis=axis, kw=kw, earlier=warm, before=[(d.a, d.b, d.c, d.inplace, d.sampled) for d in before], after=len(after))
    ev = [t for t in tr if t["kind"] == "occ"]
    main = {}
    for t in ev:
        if not t["freeze"]:
            m.check(t["name"] not in main, "one_main_call", f"{t['name']} called twice without being frozen", **w)
            main[t["name"]] = t["last"]
    m.check(set(main) == {d.name for d in before + after}, "one_main_call", f"main calls of {sorted(main)}", **w)
    rep = [t for t in ev if t["freeze"]]
    m.check(all(t["name"].startswith("a") for t in rep), "later_not_involved", f"replayed {sorted(set(t['name'] for t in rep))}", **w)
    m.event("replayed_calls", len(rep))
    # in list order for every regenerated part
    names = [t["name"] for t in rep]
    m.check(len(names) % len(before) == 0 and names == [d.name for d in before] * (len(names) // len(before)), "replay_frozen",
            f"replay order {names[:8]}", **w)
    m.check(all(t["last"] == main.get(t["name"]) for t in rep), "replay_parameters", "replayed with other sampled parameters", **w)

    def values(a, c):
        oo, ll = csd.values(a, c)
        for d in before + after:
            oo, ll = d.apply(oo, ll, main[d.name])
        return oo, ll
    s = jumps.ascending(jumps.decode(values, o, l, v1, v2, kw["resolution"], axis, 60), v1, v2, axis)
    if m.check((s >= 0).all(), "composed_diagram", f"lines {np.nonzero(s < 0)[0][:6].tolist()} of {len(s)} do not show the "
               "distorted diagram at a lower voltage", shifts=s, **w) and s.any():
        m.distinct(s, axis, two_d)
        m.event("lines_showing_regenerated_data", int((s > np.arange(len(s))).sum()))
    # compared with runs without the regenerating distortion
    _, _, da, _ = measure(csd, before + after, kw, warm)
    for x, y in zip(ds[:len(before)] + ds[len(before) + 1:], da):
        m.check(state(x) == state(y), "state_as_alone", f"{x.name}: {state(x)} vs {state(y)} without regeneration", **w)
    ob, lb, db, _ = measure(csd, [b], kw, warm)
    sb = jumps.ascending(jumps.decode(csd.values, ob, lb, v1, v2, kw["resolution"], axis, 60), v1, v2, axis)
    m.check(np.array_equal(s, sb) and state(db[0]) == state(ds[len(before)]), "same_shifts_as_alone",
            "other jumps than without the other distortions", alone=sb, chained=s, **w)
    m.sample(**w, shifts=s)


def two_jumps(m, rng):
    v1, v2 = window(rng, True)
    n = gen.resolution(rng, True, (8, 22), None)
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(n))
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 1, 4, 4)), flat="labels" if rng.random() < 0.2 else "")
    first = int(rng.integers(2))
    ra, rb = float(rng.choice([1, 0.5])), float(rng.choice([1, 1, 0.5]))
    d = {ax: mk_jump(rng, v1 if ax == 1 else v2, n[1 - ax], ax, ra if ax == first else rb, lam=3.0) for ax in (0, 1)}
    pr = [probes.ProbeOcc("a", a=1.1, b=0.2, c=1, sampled=True, seed=int(rng.integers(1 << 30)))] if rng.random() < 0.5 else []
    warm = earlier(rng, kw)
    o, l, ds, tr = measure(csd, pr + [d[first], d[1 - first]], kw, warm)
    w = dict(first_axis=first, ratios=(ra, rb), kw=kw, earlier=warm)
    if pr:
        ev = [t for t in tr if t["kind"] == "occ"]
        m.check(sum(not t["freeze"] for t in ev) == 1 and len(set(t["last"] for t in ev)) == 1, "replay_parameters",
                "nested regeneration replays with other parameters", **w)
        m.event("nested_replays", len(ev) - 1)
    kmax = 16
    p1, p2 = abs(v1[1] - v1[0]) / (n[0] - 1), abs(v2[1] - v2[0]) / (n[1] - 1)
    a, b = np.linspace(*v1, n[0]), np.linspace(*v2, n[1])
    s1, s2 = np.full(n[0], -1), np.full(n[1], -1)
    ok = np.zeros((n[1], n[0]), dtype=bool)
    shift1, shift2 = np.full(ok.shape, -1), np.full(ok.shape, -1)
    for k1 in range(kmax):
        for k2 in range(kmax):
            oo, ll = csd.values(*np.meshgrid(a - k1 * p1, b - k2 * p2))
            if pr:
                oo, ll = pr[0].apply(oo, ll, ds[0].last)
            hit = (np.abs(oo - o) < 1e-8).all(-1) & (ll == l) & ~ok
            shift1[hit], shift2[hit] = k1, k2
            ok |= hit
        if ok.all():
            break
    if not m.check(ok.all(), "two_jumps", f"{int((~ok).sum())} pixels show nothing of the diagram at lower voltages", **w):
        return
    s1, s2 = shift1[0], shift2[:, 0]
    m.check((shift1 == s1[None]).all() and (shift2 == s2[:, None]).all(), "two_jumps",
            "the jumps along one axis differ between main and regenerated part", s1=s1, s2=s2, **w)
    for ax, s in ((1, s1), (0, s2)):
        jumps.judge_blocks(m, jumps.ascending(s, v1, v2, ax), "chained_", **w)
        oa, la, da, _ = measure(csd, [d[ax]], kw, warm)
        sa = jumps.decode(csd.values, oa, la, v1, v2, n, ax, kmax * 2)
        m.check(np.array_equal(sa, s), "same_shifts_as_alone", f"axis {ax}: {s} chained, {sa} alone", **w)
        m.check(state(da[0]) == state([x for x in ds if getattr(x, "axis", None) == ax][0]), "state_as_alone", f"axis {ax}: generator or activation differs from a run alone", **w)
    if s1.any() and s2.any():
        m.distinct(s1, s2)


def two_jumps_1d(m, rng):
    v1, v2 = window(rng, False)
    n = int(rng.integers(8, 16))
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=n)
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 1, 4, 4)), flat="labels" if rng.random() < 0.2 else "")
    first = int(rng.integers(2))
    d = {ax: mk_jump(rng, v1 if ax == 1 else v2, n, ax, float(rng.choice([1, 1, 0.5])), lam=2.0) for ax in (0, 1)}
    warm = earlier(rng, kw)
    o, l, ds, _ = measure(csd, [d[first], d[1 - first]], kw, warm)
    w = dict(first_axis=first, kw=kw, earlier=warm)
    alone = {}
    for ax in (0, 1):
        oa, la, da, _ = measure(csd, [d[ax]], kw, warm)
        alone[ax] = jumps.decode(csd.values, oa, la, v1, v2, n, ax, 20)
        m.check(state(da[0]) == state([x for x in ds if x.axis == ax][0]), "state_as_alone", f"axis {ax}: generator or activation differs from a run alone", **w)
    if min(alone[0].min(), alone[1].min()) < 0:
        m.check(False, "composed_diagram", "a single jump does not show the diagram", **w)
        return
    e1, e2 = abs(v1[1] - v1[0]) / (n - 1), abs(v2[1] - v2[0]) / (n - 1)
    # the jumps along one gate are drawn per pixel of the line, so both act on every pixel independently
    oo, ll = csd.values(np.linspace(*v1, n) - alone[1] * e1, np.linspace(*v2, n) - alone[0] * e2)
    m.check(np.allclose(oo, o, rtol=0, atol=1e-8) and np.array_equal(ll, l), "two_jumps",
            "pixels do not show the diagram shifted by both jumps", s1=alone[1], s2=alone[0], **w)
    if alone[0].any() and alone[1].any():
        m.distinct(alone[0], alone[1])


def blurred(m, rng):
    from simcats import distortions as D
    from simcats.support_functions import UniformSamplingRange
    two_d = rng.random() < 0.6
    axis = 0 if two_d else int(rng.integers(2))
    v1, v2 = window(rng, two_d, axis)
    n = [int(x) for x in rng.integers(10, 26, 2)]
    if not two_d:
        n = [int(rng.integers(14, 40))] * 2
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(n) if two_d else int(n[0]))
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 1, 4, 4)), flat="labels" if rng.random() < 0.2 else "")
    ext = max(abs(v1[1] - v1[0]), abs(v2[1] - v2[0]))
    cls = getattr(D, ["OccupationTransitionBlurringGaussian", "OccupationTransitionBlurringFermiDirac"][int(rng.integers(2))])
    r = (0.03 * ext, 0.15 * ext)
    blur = cls(sigma=UniformSamplingRange(r, rng=np.random.default_rng(int(rng.integers(1 << 40)))) if rng.random() < 0.7 else float(gen.u(rng, *r)))
    b = mk_jump(rng, v1 if axis == 1 else v2, n[1] if two_d else n[0], axis)
    warm = earlier(rng, kw)
    o, l, ds, _ = measure(csd, [blur, b], kw, warm)
    sig = ds[0].latest_sigma
    w = dict(two_d=two_d, axis=axis, kw=kw, earlier=warm, sigma=sig, cls=cls.__name__)

    def values(x, y):
        oo, ll = csd.values(x, y)
        return cls(sigma=sig).noise_function(oo.copy(), ll.copy(), v1, v2, None)
    s = jumps.ascending(jumps.decode(values, o, l, v1, v2, kw["resolution"], axis, 60), v1, v2, axis)
    m.check((s >= 0).all(), "blurred_rows", f"lines {np.nonzero(s < 0)[0][:6].tolist()} do not show the blurred diagram", shifts=s, **w)
    _, _, da, _ = measure(csd, [blur], kw, warm)
    m.check(state(da[0]) == state(ds[0]), "state_as_alone", f"{state(da[0])} vs {state(ds[0])}", **w)
    if s.any():
        m.distinct(s, axis)
