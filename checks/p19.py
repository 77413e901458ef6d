"""P19: transition blurring smooths each dot along the sweep and nothing else."""
import numpy as np

from vmon import gen
from vmon.sims import Setup

PID = "P19"
TITLE = "Transition blurring smooths each dot along the sweep and nothing else"
RULE = ("random occupations (steps, noise, constants, geometric diagrams), shapes, sweeps of all directions and kernel widths, both kernels, "
        "direct calls and measurements; the output is judged against the untruncated kernel and metamorphic relations; non-trivial = "
        "distinct blurred array")
ASSUMPTIONS = ["kernel values are compared up to 3e-3 of the data's range (truncation of the kernel's tails)",
               "at the scan's edges the data is continued by reflection, as documented for the default mode of the filters"]
CASES = {"quick": 3000, "thorough": 100000}
REQUIRED = {"kernel": 1500, "labels_unchanged": 2500, "constant": 300, "range": 1500, "rows_independent": 200, "dots_independent": 500,
            "zero_width": 100, "linear": 300, "mirror": 300, "in_simulation": 100}


def kernel(kind, sig):
    r = int(np.ceil(8 * sig)) + 1
    x = np.arange(-r, r + 1) / sig
    with np.errstate(over="ignore"):
        w = np.exp(-x ** 2 / 2) if kind == "Gaussian" else np.cosh(np.clip(x, -300, 300)) ** -2.0
    return w / w.sum()


def blur_ref(x, w):
    """Along the last axis, edges reflected (d c b a | a b c d | d c b a)."""
    n = x.shape[-1]
    r = len(w) // 2
    idx = np.arange(-r, n + r)
    per = np.mod(idx, 2 * n)
    per = np.where(per < n, per, 2 * n - 1 - per)
    y = x[..., per]
    return np.stack([y[..., k:k + len(w)] @ w for k in range(n)], -1)


def data(rng, shape):
    k = rng.integers(4)
    if k == 0:
        x = rng.uniform(0, 4, shape + (2,))
    elif k == 1:
        x = np.rint(rng.uniform(0, 4, shape + (2,)))
    elif k == 2:
        x = np.zeros(shape + (2,))
        c = int(rng.integers(1, shape[-1]))
        x[..., c:, :] = 1.0
        x[..., c // 2:, 1] += 1
    else:
        x = np.cumsum(rng.random(shape + (2,)) < 0.1, axis=-2).astype(float)
    return x


def sweeps(rng, shape):
    w, h = gen.u(rng, 0.005, 0.08), gen.u(rng, 0.005, 0.08)
    a, b = gen.u(rng, -0.3, 0.2, 2)
    v1, v2 = gen.flip(rng, np.array([a, a + w])), gen.flip(rng, np.array([b, b + h]))
    kind = "2d"
    if len(shape) == 1:
        kind = str(rng.choice(["g1", "g2", "both"]))
        if kind == "g1":
            v2[:] = v2[0]
        elif kind == "g2":
            v1[:] = v1[0]
    return v1, v2, kind


def px_per_volt(shape, v1, v2):
    if len(shape) == 2:
        return shape[1] / abs(v1[1] - v1[0])
    return max(shape[0] / e for e in (abs(v1[1] - v1[0]), abs(v2[1] - v2[0])) if e > 0)


def run_case(m, rng, i):
    from simcats.distortions import OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian
    kind = ["Gaussian", "FermiDirac"][i % 2]
    cls = OccupationTransitionBlurringGaussian if kind == "Gaussian" else OccupationTransitionBlurringFermiDirac
    if i % 10 >= 8:
        return in_simulation(m, rng, cls, kind)
    two_d = rng.random() < 0.6
    shape = gen.shape(rng, two_d, (8, 60), (12, 200))
    if rng.random() < 0.15:     # large scans with wide kernels
        shape = shape[:-1] + (int(rng.integers(200, 900)),)
    v1, v2, sw = sweeps(rng, shape)
    px = float(np.exp(gen.u(rng, np.log(0.15), np.log(min(8 if shape[-1] < 200 else 120, shape[-1] / 5)))))
    width = px / px_per_volt(shape, v1, v2)
    x = data(rng, shape)
    lab = rng.integers(0, 5, shape).astype(np.uint8)
    w = dict(kernel=kind, shape=shape, sweep=sw, width_px=px, g1=v1, g2=v2)
    d = cls(sigma=width)

    def call(arr, a=v1, b=v2, dist=d):
        lab_in = lab.copy()
        k1, k2 = a.copy(), b.copy()
        arr = gen.layout(rng, arr.copy(), 0.3)
        if rng.random() < 0.3 and np.array_equal(arr, np.rint(arr)):       # numbers of electrons
            t = arr.astype(gen.INTS[int(rng.integers(len(gen.INTS)))])
            arr = t if np.array_equal(t, arr) else arr
        o, l = dist.noise_function(arr, lab_in, a, b, None)
        m.check(np.array_equal(l, lab) and np.array_equal(a, k1) and np.array_equal(b, k2), "labels_unchanged", "labels or ranges changed", **w)
        return o
    y = call(x)
    if not m.check(y.shape == x.shape, "shape", f"{y.shape}", **w):
        return
    ref = np.stack([blur_ref(x[..., k], kernel(kind, px)) for k in range(2)], -1)
    span = max(np.ptp(x), 1e-12)
    err = np.abs(ref - y).max() / span
    m.check(err < 3e-3, "kernel", f"deviates from the {kind} average by {err:.4f} of the range", **w)
    m.check(all(y[..., k].min() >= x[..., k].min() - 1e-9 and y[..., k].max() <= x[..., k].max() + 1e-9 for k in range(2)), "range",
            "values left the original range", **w)
    # each dot alone
    x2 = x.copy()
    x2[..., 1] = rng.uniform(0, 9, shape)
    m.check(np.allclose(call(x2)[..., 0], y[..., 0], rtol=0, atol=1e-10), "dots_independent", "the other dot has an influence", **w)
    m.check(np.allclose(call(x[..., ::-1])[..., ::-1], y, rtol=0, atol=1e-10), "dots_independent", "the dots are treated differently", **w)
    if two_d:
        k = int(rng.integers(shape[0]))
        x3 = x.copy()
        x3[k] = rng.uniform(0, 9, x3[k].shape)
        y3 = call(x3)
        m.check(np.allclose(np.delete(y3, k, 0), np.delete(y, k, 0), rtol=0, atol=1e-10), "rows_independent", "rows influence each other", **w)
        perm = rng.permutation(shape[0])
        m.check(np.allclose(call(x[perm]), y[perm], rtol=0, atol=1e-10), "rows_independent", "rows are treated differently", **w)
    c = float(gen.u(rng, 0, 5))
    if rng.random() < 0.5:
        m.check(np.allclose(call(np.full_like(x, c)), c, rtol=1e-9), "constant", "a constant occupation changed", **w)
        a = float(gen.u(rng, 0.2, 3))
        m.check(np.allclose(call(a * x + c), a * y + c, rtol=1e-9, atol=1e-9), "linear", "blurring is not linear", **w)
    if rng.random() < 0.5:
        # reversed data and sweep: mirrored result
        r = (slice(None), slice(None, None, -1)) if two_d else (slice(None, None, -1),)
        keep = lab.copy()
        o, l = d.noise_function(x[r].copy(), lab[r].copy(), v1[::-1].copy(), v2 if two_d else v2[::-1].copy(), None)
        m.check(np.allclose(o[r], y, rtol=0, atol=1e-9) and np.array_equal(l[r], keep), "mirror", "reversed sweep is not the mirrored result", **w)
    if rng.random() < 0.15:
        z, _ = cls(sigma=0).noise_function(x.copy(), lab.copy(), v1, v2, None)
        m.check(np.array_equal(z, x), "zero_width", "width 0 changed the data", **w)
    m.check(d.latest_sigma == width and d.sigma == width, "width_kept", "the configured width changed", **w)
    m.distinct(y)
    m.sample(**w)


def in_simulation(m, rng, cls, kind):
    s = Setup(rng, sensor="generic", res=(14, 60))
    kw, sw = s.request()
    two_d = sw == "2d"
    v1, v2 = kw["sweep_range_g1"], kw["sweep_range_g2"]
    _, o0, l0, _ = s.sim().measure(**kw)
    px = float(np.exp(gen.u(rng, np.log(0.15), np.log(4))))
    width = px / px_per_volt(l0.shape, v1, v2)
    _, o, l, _ = s.sim(occupation_distortions=[cls(sigma=width)]).measure(**kw)
    w = dict(config=s.describe(), kernel=kind, sweep=sw, width_px=px, kw=kw)
    ref = np.stack([blur_ref(o0[..., k], kernel(kind, px)) for k in range(2)], -1)
    err = np.abs(ref - o).max() / max(np.ptp(o0), 1)
    m.check(err < 3e-3, "in_simulation", f"measured occupations deviate from the blurred ideal ones by {err:.4f}", **w)
    m.check(np.array_equal(l, l0), "labels_unchanged", "labels changed by blurring", **w)
    m.distinct(o)
