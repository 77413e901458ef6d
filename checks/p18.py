"""P18: dot jumps shift blocks of the diagram towards higher voltages."""
import numpy as np

from vmon import gen, jumps, probes, ref
from vmon.sims import Setup

PID = "P18"
TITLE = "Dot jumps shift blocks of the diagram towards higher voltages"
RULE = ("random scans (1D along either or both gates, 2D, all directions, non-square) of a smooth synthetic diagram in which every shift is "
        "recognisable, and of geometric diagrams; the shift of every line is decoded from the scan and an online monitor judges the block "
        "structure; non-trivial = distinct shift pattern with at least one shifted block")
ASSUMPTIONS = ["a geometric diagram's pixels entering from outside are judged up to the pixels touched by a transition"]
CASES = {"quick": 1500, "thorough": 40000}
REQUIRED = {"shows_diagram": 400, "begins_unshifted": 400, "alternating_blocks": 400, "mirrored": 150, "no_jump": 40,
            "real_lines": 100, "undistorted_signal_stage": 100}


def window(rng):
    w = gen.u(rng, 0.01, 0.05)
    h = w * np.exp(gen.u(rng, -0.6, 0.6))
    a, b = gen.u(rng, -0.3, 0, 2)
    return gen.flip(rng, np.array([a, a + w])), gen.flip(rng, np.array([b, b + h]))


def run_case(m, rng, i):
    (real if i % 4 == 3 else synthetic)(m, rng, i)


def jump(rng, ext, n, seed, lam_px=None, axis=1):
    from simcats.distortions import OccupationDotJumps
    from simcats.support_functions import UniformSamplingRange
    sc = float(np.exp(gen.u(rng, np.log(1.5), np.log(n)))) * ext / n
    # mostly a few pixels, but also jumps as long as the sweep itself
    far = rng.random() < 0.25
    lam = (lam_px if lam_px is not None else float(np.exp(gen.u(rng, *np.log([6, 1.2 * n + 1] if far else [0.5, 12]))))) * ext / n
    smp = rng.random() < 0.3

    def make():
        g = np.random.default_rng(seed)
        g2 = np.random.default_rng(seed + 1)
        return OccupationDotJumps(scale=UniformSamplingRange((0.5 * sc, 1.5 * sc), rng=g2) if smp else sc,
                                  lam=UniformSamplingRange((0.5 * lam, 1.5 * lam), rng=g2) if smp else lam, axis=axis, rng=g)
    return make, sc, lam


def synthetic(m, rng, i):
    from simcats import Simulation
    probes.take()
    v1, v2 = window(rng)
    axis = int(rng.integers(2))
    two_d = rng.random() < 0.65
    kind = "2d"
    if two_d:
        res = gen.resolution(rng, True, (6, 34), None)
        n = res[1 - axis]
    else:
        kind = str(rng.choice(["diag", "anti", "gate", "fixed"]))
        n = int(rng.integers(12, 70))
        res = n
        if kind == "diag" and (v1[0] < v1[1]) != (v2[0] < v2[1]):
            v2 = v2[::-1].copy()
        if kind == "anti" and (v1[0] < v1[1]) == (v2[0] < v2[1]):
            v2 = v2[::-1].copy()
        if (kind == "gate" and axis == 1) or (kind == "fixed" and axis == 0):
            v2[:] = v2[0]
        elif kind in ("gate", "fixed"):
            v1[:] = v1[0]
    vj = v1 if axis == 1 else v2
    ext = abs(vj[1] - vj[0]) or 0.02
    lam_px = 0.0 if rng.random() < 0.08 else None
    make, sc, lam = jump(rng, ext, n, int(rng.integers(1 << 40)), lam_px, axis)
    # labels everywhere, only below the window (it then shows the labels jumping in and no other), or partially inside
    un = None
    if rng.random() < 0.3:
        un = (1 - axis, float(vj.min() + (-1e-6 if rng.random() < 0.6 else gen.u(rng, 0, 1)) * ext))
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 0.8, 4, 4)), unlabelled=un)
    sim = Simulation(ideal_csd_config=csd, sensor=probes.ProbeSensor(), occupation_distortions=[make()])
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=np.array(res) if two_d else res)
    c, o, l, _ = sim.measure(**kw)
    w = dict(kind=kind, axis=axis, g1=v1, g2=v2, res=res, scale=sc, lam=lam)
    kmax = int(40 + 4 * lam / ext * n)
    s = jumps.ascending(jumps.decode(csd.values, o, l, v1, v2, res, axis, kmax), v1, v2, axis)
    m.check(np.allclose(c, np.tanh(o @ np.array([0.3, -0.7]) + 0.1) + 0.2), "undistorted_signal_stage", "signal does not show the shifted data", **w)
    m.event("scans_" + kind)
    if kind == "fixed" or lam == 0:
        m.check((s == 0).all(), "no_jump", f"shifts {s[:10]} although there is nothing to shift", **w)
        m.check(sim.occupation_distortions[0].activated == (kind != "fixed"), "activation_of_fixed_gate", "", **w)
        return
    if not jumps.judge_blocks(m, s, **w):
        return
    if s.any():
        m.distinct(s, kind, axis)
        m.event("shifted_lines", int((s > 0).sum()))
        m.event("lines_showing_outside", int((s > np.arange(len(s))).sum()))
    m.sample(**w, shifts=s)
    # the same generator state with reversed sweeps gives the mirrored scan
    f1, f2 = (bool(rng.random() < 0.6), bool(rng.random() < 0.6)) if two_d else (True, True)
    sim2 = Simulation(ideal_csd_config=csd, sensor=probes.ProbeSensor(), occupation_distortions=[make()])
    c2, o2, l2, _ = sim2.measure(sweep_range_g1=v1[::-1] if f1 else v1, sweep_range_g2=v2[::-1] if f2 else v2, resolution=kw["resolution"])
    if two_d:
        o2 = o2[::-1 if f2 else 1, ::-1 if f1 else 1]
        l2 = l2[::-1 if f2 else 1, ::-1 if f1 else 1]
    else:
        o2, l2 = o2[::-1], l2[::-1]
    m.check(np.allclose(o, o2, rtol=0, atol=1e-9) and np.array_equal(l, l2), "mirrored", "reversed sweep does not give the mirrored jumps", **w)


def real(m, rng, i):
    s = Setup(rng, sensor="generic", res=(10, 30))
    kw, kind = s.request(n=int(rng.integers(12, 50)))
    v1, v2 = kw["sweep_range_g1"], kw["sweep_range_g2"]
    axis = int(rng.integers(2))
    two_d = kind == "2d"
    res = [int(x) for x in kw["resolution"]] if two_d else int(kw["resolution"])
    n = res[1 - axis] if two_d else res
    vj = v1 if axis == 1 else v2
    ext = abs(vj[1] - vj[0])
    if ext == 0:
        axis = 1 - axis
        vj = v1 if axis == 1 else v2
        ext = abs(vj[1] - vj[0])
    make, sc, lam = jump(rng, ext, n, int(rng.integers(1 << 40)), None, axis)
    _, o0, l0, _ = s.sim().measure(**kw)
    _, o, l, _ = s.sim(occupation_distortions=[make()]).measure(**kw)
    w = dict(config=s.describe(), kind=kind, axis=axis, g1=v1, g2=v2, res=res, scale=sc, lam=lam)
    kmax = int(40 + 4 * lam / ext * n)
    desc = vj[0] > vj[1]

    def asc(x):
        """Lines along the jump axis first, ascending voltage."""
        x = np.moveaxis(x, 1, 0) if two_d and axis == 1 else x
        return x[::-1] if desc else x
    oa, la, o0a, l0a = asc(o), asc(l).astype(int), asc(o0), asc(l0).astype(int)
    found = np.zeros(n, dtype=bool)
    shifted = False
    for k in range(kmax + 1):
        # lines whose source is inside of the window: exactly the undistorted data
        if k < n and (two_d or k == 0):
            same = (np.abs(oa[k:] - o0a[:n - k]) < 1e-9).all(-1) & (la[k:] == l0a[:n - k])
            same = same.all(axis=1) if two_d else same
            shifted |= bool((same & ~found[k:]).any()) and k > 0
            found[k:] |= same
        reach = k if two_d else n
        if k > 0 and not found[:reach].all():
            # lines showing the diagram outside of the window (1D: off the scanned line)
            d1, d2 = (k * ext / (n - 1), 0) if axis == 1 else (0, k * ext / (n - 1))
            g = ref.grid(v1 - d1, v2 - d2, res)
            if two_d:
                p1, p2 = abs(v1[1] - v1[0]) / (res[0] - 1), abs(v2[1] - v2[0]) / (res[1] - 1)
            else:
                p1, p2 = abs(v1[1] - v1[0]) / (res - 1), abs(v2[1] - v2[0]) / (res - 1)
            lo = hi = None
            for a in (-0.75, 0, 0.75):
                for b in (-0.75, 0, 0.75):
                    x, y = s.ref.total_bounds(g + np.array([a * p1, b * p2]))
                    lo = x if lo is None else np.minimum(lo, x)
                    hi = y if hi is None else np.maximum(hi, y)
            tot = o.sum(-1)
            ti = np.rint(tot).astype(int)
            ok = (np.abs(tot - ti) < 1e-9) & (ti >= lo) & (ti <= hi)
            for t in np.unique(ti):
                sel = ok & (ti == t)
                if t == 0:
                    ok[sel] &= np.abs(o[sel]).max(-1) < 1e-9
                elif 0 < t < len(s.ref.tcts):
                    e = np.stack(s.ref.split(int(t), g[sel]), -1)
                    ok[sel] &= (np.abs(e - o[sel]) < 1e-6).all(-1)
            ll = np.asarray(l).astype(int)
            ok &= (ll == 0) | (ll == ti)
            oka = asc(ok)
            oka = oka.all(axis=1) if two_d else oka
            shifted |= bool((oka[:reach] & ~found[:reach])[:n].any())
            found[:reach] |= oka[:reach]
        if found.all():
            break
    m.check(found.all(), "real_lines", f"lines {np.nonzero(~found)[0][:6].tolist()} show nothing of the diagram at lower voltages", **w)
    m.check((np.abs(oa[0] - o0a[0]) < 1e-9).all() and (la[0] == l0a[0]).all(), "begins_unshifted", "first line is distorted", **w)
    if shifted:
        m.distinct(oa.astype(np.float32))
    m.event("real_scans_" + kind)
