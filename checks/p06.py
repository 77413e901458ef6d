"""P06: a voltage point has one result, whatever window contains it."""
import numpy as np

from vmon import gen, judge, ref
from vmon.core import Skip
from vmon.sims import Setup

PID = "P06"
TITLE = "A voltage point has one result, whatever window contains it"
RULE = ("random configurations; a 2D reference scan is compared with cuts (1D scans along rows, columns and diagonals), sub-windows, "
        "denser scans and the ideal data at all shared voltage points; non-trivial = distinct pair with more than one occupation")
ASSUMPTIONS = ["pixels within 0.75 pixel of a transition are excluded in 2D comparisons (they may show either side)"]
CASES = {"quick": 700, "thorough": 30000}
REQUIRED = {"cut_occupations": 200, "cut_signal": 200, "subwindow_occupations": 100, "denser_occupations": 100, "ideal_data": 100, "long_occupations": 60}


def sub(rng, n):
    k = int(rng.integers(3, n + 1))
    o = int(rng.integers(0, n - k + 1))
    return o, k


def long_line(m, rng, s, sim, sv, w):
    """A trace of many points agrees with the traces of its parts and with those of every k-th point."""
    try:
        a, b, _ = gen.line(rng, s.ref)
    except Skip:
        return
    if rng.random() < 0.7:
        # along a transition, across one of its bends
        p = s.ikw["tct_params"][int(rng.integers(len(s.ikw["tct_params"])))]
        k = int(rng.choice([4, 6]))
        h = float(gen.u(rng, 0.002, 0.015))
        mid = np.array([p[k], p[k + 1] + gen.u(rng, -3e-4, 3e-4)])
        d = np.array([h, h * gen.u(rng, -0.3, 0.3)])
        ends = ref.rot(np.stack([mid - d, mid + d][:: 1 if rng.random() < 0.5 else -1]), s.ikw["rotation"])
        if s.ref.margins(ends[:1] + np.linspace(0, 1, 200)[:, None] * (ends[1:] - ends[:1]))[-1].max() < -1e-3:
            a, b = ends[:, 0].copy(), ends[:, 1].copy()
            m.event("along_transition")
    n = int(rng.integers(1001, 6000))
    k = int(rng.integers(2, 30))
    n = (n - 1) // k * k + 1
    x, y = ref.axis_volts(a, n), ref.axis_volts(b, n)
    full = sim.measure(sweep_range_g1=a, sweep_range_g2=b, resolution=n, **sv)
    safe = np.abs(s.ref.margins(np.stack([x, y], -1))).min(0) > 1e-12
    tol = 1e-8 * max(1e-3, float(np.abs(full[0]).max()))
    parts = [(slice(None, None, k), a, b)]
    for j in range(2):
        q = int(rng.integers(10, 700))
        o = int(rng.integers(0, n - q + 1))
        parts.append((slice(o, o + q), x[[o, o + q - 1]], y[[o, o + q - 1]]))
    for sl, r1, r2 in parts:
        out = sim.measure(sweep_range_g1=r1, sweep_range_g2=r2, resolution=len(x[sl]), **sv)
        ok = safe[sl]
        m.close(out[1][ok], full[1][sl][ok], "long_occupations", "occupations of a part of a long trace", atol=1e-7, rtol=1e-7, line=[a, b, n], part=sl, **w)
        m.close(out[0][ok], full[0][sl][ok], "long_signal", "signal of a part of a long trace", atol=tol, rtol=1e-6, line=[a, b, n], part=sl, **w)


def run_case(m, rng, i):
    s = Setup(rng, res=(12, 45))
    sim = s.sim()
    a, b = gen.flip(rng, s.w1), gen.flip(rng, s.w2)
    sv = {} if s.kind == "generic" else dict(volt_sensor_g1=s.s1, volt_sensor_g2=s.s2)
    res = s.res
    w = dict(config=s.describe(), window=[a, b], resolution=res)
    sig, occ, lab, _ = sim.measure(sweep_range_g1=a, sweep_range_g2=b, resolution=np.array(res), **sv)
    tol = 1e-8 * max(1e-3, float(np.abs(sig).max()))
    x, y = ref.axis_volts(a, res[0]), ref.axis_volts(b, res[1])
    lo, hi = judge.neighbourhood_totals(s.ref, a, b, res)
    clear = (lo == hi) & (lab == 0)
    m.event("comparable_pixels", int(clear.sum()))
    # ideal data of the configured diagram
    io, il = gen.ideal(s.ikw).get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=np.array(res))
    m.check(np.array_equal(io, occ) and np.array_equal(il, lab), "ideal_data", "undistorted scan differs from the ideal data", **w)
    if rng.random() < 0.25:
        long_line(m, rng, s, sim, sv, w)
    # cuts
    for kind in ("row", "col", "diag"):
        if kind == "row":
            j = int(rng.integers(res[1]))
            o, k = sub(rng, res[0])
            ix, iy = np.arange(o, o + k), np.full(k, j)
            r1, r2 = np.array([x[o], x[o + k - 1]]), np.array([y[j], y[j]])
        elif kind == "col":
            j = int(rng.integers(res[0]))
            o, k = sub(rng, res[1])
            ix, iy = np.full(k, j), np.arange(o, o + k)
            r1, r2 = np.array([x[j], x[j]]), np.array([y[o], y[o + k - 1]])
        else:
            k = int(rng.integers(3, min(res) + 1))
            o, p = int(rng.integers(0, res[0] - k + 1)), int(rng.integers(0, res[1] - k + 1))
            ix, iy = np.arange(o, o + k), np.arange(p, p + k)
            r1, r2 = np.array([x[o], x[o + k - 1]]), np.array([y[p], y[p + k - 1]])
        c_sig, c_occ, c_lab, _ = sim.measure(sweep_range_g1=r1, sweep_range_g2=r2, resolution=gen.res_format(rng, k), **sv)
        sel = clear[iy, ix]
        m.check(c_occ.shape == (k, 2), "cut_shape", f"{c_occ.shape}", **w)
        m.close(c_occ[sel], occ[iy, ix][sel], "cut_occupations", f"occupations of a {kind} cut", atol=1e-7, rtol=1e-7, cut=[r1, r2, k], **w)
        m.close(c_sig[sel], sig[iy, ix][sel], "cut_signal", f"signal of a {kind} cut", atol=tol, rtol=1e-6, cut=[r1, r2, k], **w)
    # sub-window
    (o, k), (p, q) = sub(rng, res[0]), sub(rng, res[1])
    f1, f2 = int(rng.integers(2)), int(rng.integers(2))
    r1, r2 = np.array([x[o], x[o + k - 1]]), np.array([y[p], y[p + q - 1]])
    w_sig, w_occ, w_lab, _ = sim.measure(sweep_range_g1=r1[::-1].copy() if f1 else r1, sweep_range_g2=r2[::-1].copy() if f2 else r2,
                                         resolution=np.array([k, q]), **sv)
    fl = lambda z: (z[::-1] if f2 else z)[:, ::-1] if f1 else (z[::-1] if f2 else z)  # noqa
    sel = clear[p:p + q, o:o + k] & (fl(w_lab) == 0)
    m.close(fl(w_occ)[sel], occ[p:p + q, o:o + k][sel], "subwindow_occupations", "occupations of a sub-window", atol=1e-7, rtol=1e-7,
            sub=[r1, r2, k, q], **w)
    m.close(fl(w_sig)[sel], sig[p:p + q, o:o + k][sel], "subwindow_signal", "signal of a sub-window", atol=tol, rtol=1e-6,
            sub=[r1, r2, k, q], **w)
    # denser scan
    k1, k2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    dres = [(res[0] - 1) * k1 + 1, (res[1] - 1) * k2 + 1]
    if max(k1, k2) > 1 and max(k1, k2) / min(k1, k2) < 3:
        d_sig, d_occ, d_lab, _ = sim.measure(sweep_range_g1=a, sweep_range_g2=b, resolution=np.array(dres), **sv)
        sel = clear & (d_lab[::k2, ::k1] == 0)
        dlo, dhi = judge.neighbourhood_totals(s.ref, a, b, dres)
        sel &= (dlo == dhi)[::k2, ::k1]
        m.close(d_occ[::k2, ::k1][sel], occ[sel], "denser_occupations", "occupations of a denser scan", atol=1e-7, rtol=1e-7, dres=dres, **w)
        m.close(d_sig[::k2, ::k1][sel], sig[sel], "denser_signal", "signal of a denser scan", atol=tol, rtol=1e-6, dres=dres, **w)
    if len(np.unique(np.rint(occ.sum(-1)))) > 1:
        m.distinct(sig)
    m.sample(**w)
