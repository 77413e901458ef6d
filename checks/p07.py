"""P07: the total charge transition curve is evaluated as defined."""
import numpy as np

from vmon import gen, ref

PID = "P07"
TITLE = "The total charge transition curve is evaluated as defined"
RULE = ("random transition parameters (symmetric, asymmetric and vanishing curved part), numbers of maxima, evaluation points "
        "(dense, at joints, far outside, unordered, scalars), look-up-table sizes incl. none; non-trivial = distinct parameters "
        "evaluated in at least one curved part")
ASSUMPTIONS = ["look-up-table evaluation may deviate by one table spacing"]
CASES = {"quick": 3000, "thorough": 150000}
REQUIRED = {"exact_curve": 500, "lut_curve": 500, "pointwise": 500, "anchors": 500, "invalid_rejected": 100, "maxima": 200,
            "periodic": 300, "whole_numbers": 500}


def params(rng):
    s1, s2 = gen.u(rng, 0.05, 1.5), -gen.u(rng, 0.02, 1.2)
    scale = float(np.exp(gen.u(rng, np.log(1e-3), np.log(10))))
    ll, lr = gen.u(rng, 0.5, 2, 2) * scale
    p = gen.u(rng, -3, 3, 2) * scale
    k = rng.random()
    if k < 0.1:
        dl = dr = 0.0
    else:
        dl = ll * gen.u(rng, 0.01, 0.499)
        dr = dl if k < 0.3 and dl < 0.499 * lr else lr * gen.u(rng, 0.01, 0.499)
    left = p - np.array([dl, s1 * dl])
    right = p + np.array([dr, s2 * dr])
    if dl == dr == 0:
        left = right = p
    return np.array([ll, lr, s1, s2, left[0], left[1], right[0], right[1]]), scale


def whole_numbers(m, rng):
    """Parameters and points given as whole numbers (e.g. in millivolts) mean the same as the equal floating-point numbers."""
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, tct_bezier
    while True:
        s1, s2, dx = int(rng.integers(1, 4)), -int(rng.integers(1, 4)), int(rng.integers(2, 14))
        dy = int(round((s1 - s2) * dx * gen.u(rng, 0.1, 0.9) + s2 * dx))
        d = (dy - s2 * dx) / (s1 - s2)
        if 0 < d < dx:
            break
    left = rng.integers(-30, 30, 2)
    p = np.array([2 * dx + int(rng.integers(1, 20)), 2 * dx + int(rng.integers(1, 20)), s1, s2, *left, left[0] + dx, left[1] + dy])
    n = int(rng.integers(1, 4))
    pf = p.astype(float)
    t = ref.TCT(pf, n)
    x = rng.integers(int(left[0] - 1.5 * t.period[0]), int(left[0] + (n + 1) * t.period[0]), 40)
    w = dict(params=p, max_peaks=n, x=x[:6])
    if rng.random() < 0.5:
        p = pf
    else:
        m.event("integer_parameters")
    ip = bool(rng.random() < 0.5)
    x_in = x.copy()
    for lut in (None, 500):
        tol = 1e-6 if lut is None else t.lut_tol(lut) + 1e-6
        y = tct_bezier(tct_params=p, x_eval=x if ip or p is not pf else x.astype(float), lut_entries=lut, max_peaks=n)
        m.check(np.abs(y - t(x.astype(float))).max() <= tol, "whole_numbers", f"deviation {np.abs(y - t(x.astype(float))).max()}", lut=lut, **w)
        j = int(rng.integers(x.size))
        for one in (int(x[j]), x[j], float(x[j])):
            r = tct_bezier(tct_params=p, x_eval=one, lut_entries=lut, max_peaks=n)
            m.check(np.ndim(r) == 0 and r == y[j], "whole_numbers", f"{type(one).__name__} {one}: {r} instead of {y[j]}", lut=lut, **w)
    a = calculate_all_bezier_anchors(tct_params=[p], max_peaks=n, rotation=0.0)[n]
    m.close(a, np.array([t.anchors(q) for q in range(2 * n - 1)]), "whole_numbers", "anchors", atol=1e-8, rtol=0, **w)
    m.check(np.array_equal(x, x_in), "inputs_unmodified", "points were modified", **w)
    m.distinct("whole", p, x)


def run_case(m, rng, i):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions, tct_bezier
    if i % 12 == 7:
        whole_numbers(m, rng)
        return
    p, scale = params(rng)
    n = int(rng.integers(1, 7))
    t = ref.TCT(p, n)
    w = dict(params=p, max_peaks=n)
    p_in = p.copy()
    total = t.period[0] * n
    near = np.concatenate([e[j][0] + gen.u(rng, -1e-3, 1e-3, 2) * scale for e in (t.anchors(k) for k in range(2 * n - 1)) for j in range(3)])
    x = np.concatenate([t.left[0] + gen.u(rng, -1.5 * total, 2 * total, 9000 if gen.large(rng) else 40), near, t.left[0] + gen.u(rng, 0, total, 40),
                        t.left[0] + gen.u(rng, -1, 1, 4) * 100 * total])
    if rng.random() < 0.5:
        x.sort()
    x = gen.layout(rng, x, 0.3, True)
    x_in = x.copy()
    lut = int(rng.choice([5, 50, 200, 1000, 2000]))
    atol = 1e-9 * scale
    # points exactly at joints may be attributed to either part: both agree up to rounding of the period (amplified by sqrt)
    exp = t(x)
    y = tct_bezier(tct_params=p, x_eval=x, lut_entries=None, max_peaks=n)
    at = atol + 1e-12 * np.abs(exp).max()
    m.close(y, exp, "exact_curve", "curve", atol=at * 10, rtol=0, x=x[:5], **w)
    yl = tct_bezier(tct_params=p, x_eval=x, lut_entries=lut, max_peaks=n)
    m.check(np.abs(yl - exp).max() <= t.lut_tol(lut) + at * 10, "lut_curve", f"look-up table of {lut} entries deviates by "
            f"{np.abs(yl - exp).max()} (allowed {t.lut_tol(lut)})", **w)
    lin = (x < t.left[0] - 1e-9 * scale)
    for k in range(2 * n - 2):
        lin |= (x > t.anchors(k)[2][0] + 1e-9 * scale) & (x < t.anchors(k + 1)[0][0] - 1e-9 * scale)
    lin |= x > t.anchors(2 * n - 2)[2][0] + 1e-9 * scale
    m.close(yl[lin], exp[lin], "lut_linear_parts", "linear parts with look-up table", atol=at * 10, rtol=0, **w)
    m.event("points_linear", int(lin.sum()))
    m.event("points_curved", int((~lin).sum()))
    # anchors of maxima / minima are on the curve (outer anchors), apex in between is not below/above it
    for k in range(2 * n - 1):
        a, c, b = t.anchors(k)
        ya = tct_bezier(tct_params=p, x_eval=np.array([a[0], c[0], b[0]]), lut_entries=None, max_peaks=n)
        s = 1 if k % 2 == 0 else -1
        m.check(abs(ya[0] - a[1]) < 1e-6 * scale and abs(ya[2] - b[1]) < 1e-6 * scale and s * (c[1] - ya[1]) > -1e-6 * scale,
                "anchors_on_curve", f"extremum {k}: {ya} for anchors {a}, {c}, {b}", **w)
    # number of maxima
    xs = np.linspace(t.left[0] - 0.2 * t.period[0], t.peak(n - 1)[0] + t.period[0], 400 * (n + 1))
    ys = tct_bezier(tct_params=p, x_eval=xs, lut_entries=None if i % 4 == 0 else 2000, max_peaks=n)
    d = np.sign(np.diff(ys))
    d = d[d != 0]
    m.check(int(((d[:-1] > 0) & (d[1:] < 0)).sum()) == n, "maxima", f"{int(((d[:-1] > 0) & (d[1:] < 0)).sum())} maxima instead of {n}", **w)
    # pointwise: order, shape, other points
    perm = rng.permutation(x.size)[:60]
    for le, y0 in ((lut, yl), (None, y)):
        m.check(np.array_equal(tct_bezier(tct_params=p, x_eval=x[perm], lut_entries=le, max_peaks=n), y0[perm]), "pointwise",
                "evaluation depends on order or other points", lut=le, **w)
        j = int(rng.integers(x.size))
        one = tct_bezier(tct_params=p, x_eval=float(x[j]), lut_entries=le, max_peaks=n)
        m.check(np.ndim(one) == 0 and one == y0[j], "scalar", f"scalar {one} vs {y0[j]}", lut=le, **w)
    # function objects
    plist = [p, p + np.array([0, 0, 0, 0, 0.1 * scale, 0.1 * scale, 0.1 * scale, 0.1 * scale])]
    mp = int(rng.integers(1, 3))
    fs = initialize_tct_functions(tct_params=plist, max_peaks=mp)
    m.check(sorted(fs) == [mp, mp + 1], "function_keys", f"{sorted(fs)}", **w)
    for k, f in fs.items():
        m.close(f(x_eval=x, lut_entries=None), ref.TCT(plist[k - mp], k)(x), "functions", f"transition {k}", atol=at * 10, rtol=0, **w)
    # without a number of maxima the curve is periodic
    yp = tct_bezier(tct_params=p, x_eval=x[:60], lut_entries=None)
    k = int(rng.integers(1, 5))
    yq = tct_bezier(tct_params=p, x_eval=x[:60] + k * t.period[0], lut_entries=None)
    joint = np.zeros(60, bool)
    ph = np.mod(x[:60] - t.left[0], t.period[0]) / t.period[0]
    joint = (ph < 1e-6) | (ph > 1 - 1e-6)
    m.check(np.abs(yq - yp - k * t.period[1])[~joint].max(initial=0) < 1e-7 * scale + 1e-10 * np.abs(yq).max(), "periodic",
            "periodic continuation", **w)
    inside = (x[:60] >= t.left[0]) & (x[:60] <= t.anchors(2 * n - 2)[2][0])
    m.close(yp[inside], exp[:60][inside], "periodic", "periodic curve inside of the maxima", atol=at * 10, rtol=0, **w)
    # anchors
    rotation = float(gen.u(rng, -1.2, 0))
    mp = int(rng.integers(1, 4))
    an = calculate_all_bezier_anchors(tct_params=plist, max_peaks=mp, rotation=rotation)
    ok = sorted(an) == [mp, mp + 1]
    m.check(ok, "anchor_keys", f"{sorted(an)}", **w)
    for k in range(2) if ok else ():
        tk = ref.TCT(plist[k], k + mp)
        e = np.array([ref.rot(np.array(tk.anchors(q)), rotation) for q in range(2 * (k + mp) - 1)])
        m.close(an[k + mp], e, "anchors", f"anchors of transition {k + mp}", atol=1e-9 * scale * mp, rtol=1e-9, rotation=rotation, **w)
    m.check(np.array_equal(p, p_in) and np.array_equal(x, x_in), "inputs_unmodified", "parameters or points were modified", **w)
    # parameters that do not describe a function
    bad = p.copy()
    kind = int(rng.integers(4))
    if kind == 0:      # apex left of the left anchor (center stays, left anchor moved past it)
        bad[4:6] = t.c0 + 0.1 * t.len_l * np.array([1, t.s1])
        bad[6:8] = t.c0 + 0.2 * t.len_r * np.array([1, t.s2])
    elif kind == 1:    # right anchor left of the apex
        bad[6:8] = t.c0 - 0.1 * t.len_r * np.array([1, t.s2])
        bad[4:6] = t.c0 - 0.2 * t.len_l * np.array([1, t.s1])
    elif kind == 2:    # left part longer than half of its flank
        d = gen.u(rng, 0.51, 0.9) * t.len_l
        bad[4:6] = t.c0 - d * np.array([1, t.s1])
        bad[6:8] = t.c0 + 0.1 * t.len_r * np.array([1, t.s2])
    else:
        d = gen.u(rng, 0.51, 0.9) * t.len_r
        bad[6:8] = t.c0 + d * np.array([1, t.s2])
        bad[4:6] = t.c0 - 0.1 * t.len_l * np.array([1, t.s1])
    try:
        r = tct_bezier(tct_params=bad, x_eval=x[:5], lut_entries=lut, max_peaks=n)
        got = f"values {r[:3]}"
    except (AssertionError, ValueError):
        got = None
    m.check(got is None, "invalid_rejected", f"invalid parameters (kind {kind}) give {got}", bad=bad, **w)
    if (~lin).any():
        m.distinct(p, n)
    m.sample(**w)
