"""P24: barrier and rise functions are consistent with their inverses."""
import numpy as np

from vmon import gen, ref

PID = "P24"
TITLE = "Barrier and rise functions are consistent with their inverses"
RULE = ("random parameters of generalised logistic functions (increasing and decreasing, all asymmetries and shapes), single and multi "
        "component barriers and rises, evaluated at random potentials as scalars and arrays; non-trivial = distinct parameter set")
ASSUMPTIONS = ["fractions between 0.2 % and 99.8 % and exponents within the range of floating point numbers",
               "percentages refer to the two configured asymptotes; denominator offsets between 0.5 and 1 for barriers and rises"]
CASES = {"quick": 4000, "thorough": 200000}
REQUIRED = {"value": 2500, "monotonic": 2500, "between_asymptotes": 2500, "round_trip": 600, "pinch_off": 800, "fully_conductive": 1200,
            "sum_of_components": 800, "rise_placed": 800, "elementwise": 2000, "setters": 800}


def params(rng, mirrored=True, den=False):
    a, k = np.sort(gen.u(rng, -1, 5, 2))
    if rng.random() < 0.4:
        a = 0.0
        k = abs(k) + 0.1
    if k - a < 0.05:
        k = a + 0.05
    if mirrored and rng.random() < 0.2:
        a, k = k, a
    b = float(np.exp(gen.u(rng, np.log(1), np.log(2000))))
    if mirrored and rng.random() < 0.2:
        b = -b
    p = dict(asymptote_left=float(a), asymptote_right=float(k), growth_rate=b, asymmetry=float(np.exp(gen.u(rng, np.log(0.05), np.log(4)))),
             shape_factor=float(np.exp(gen.u(rng, np.log(0.1), np.log(6)))))
    if den:
        p["denominator_offset"] = float(gen.u(rng, 0.5, 1)) if rng.random() < 0.4 else 1.0
    return p


def expected(p, x, off, den=None):
    den = p.get("denominator_offset", 1.0) if den is None else den
    return ref.glf(x, p["asymptote_left"], p["asymptote_right"], p["growth_rate"], p["asymmetry"], p["shape_factor"], den, off)


def sample_x(rng, p, off, n=60):
    f = 12 / abs(p["growth_rate"]) * max(1, p["asymmetry"])
    return off + np.sort(gen.u(rng, -f, f, n))


def judge_function(m, rng, fn, p, off, x, **w):
    """Values, monotonicity, asymptotes, elementwise evaluation of one logistic component."""
    x = gen.layout(rng, x, 0.3, True)
    keep = x.copy()
    y = np.asarray(fn(x))
    m.close(y, expected(p, x, off), "value", "function value", rtol=1e-9, atol=1e-12, **w)
    m.check(np.array_equal(x, keep), "input_untouched", "", **w)
    rising = (p["asymptote_right"] > p["asymptote_left"]) == (p["growth_rate"] > 0)
    d = np.diff(y) * (1 if rising else -1)
    m.check((d >= -1e-12 * max(1, np.abs(y).max())).all(), "monotonic", f"not monotonic: {d.min()}", **w)
    top = p["asymptote_left"] + (p["asymptote_right"] - p["asymptote_left"]) / p.get("denominator_offset", 1.0) ** (1 / p["asymmetry"])
    lo, hi = sorted((p["asymptote_left"], top))
    tol = 1e-9 * max(1, hi - lo)
    m.check(y.min() >= lo - tol and y.max() <= hi + tol, "between_asymptotes", f"[{y.min()}, {y.max()}] outside of [{lo}, {hi}]", **w)
    far = 200 / abs(p["growth_rate"]) * max(1, p["asymmetry"])
    far = min(far, 600 / abs(p["growth_rate"]))
    ends = np.array([float(fn(np.array([off - far]))[0]), float(fn(np.array([off + far]))[0])])
    want = np.array([p["asymptote_left"], top])[::1 if p["growth_rate"] > 0 else -1]
    m.check(np.allclose(ends, want, atol=1e-3 * (hi - lo)), "asymptotes", f"{ends} instead of {want}", **w)
    k = int(rng.integers(len(x)))
    m.check(abs(float(fn(float(x[k]))) - y[k]) < 1e-12 * max(1, abs(y[k])), "elementwise", "scalar and array evaluation differ", **w)
    m.check(np.array_equal(np.asarray(fn(x.reshape(6, 10))), y.reshape(6, 10)), "elementwise", "the shape of the input matters", **w)
    return y


def run_case(m, rng, i):
    [glf, barrier, barrier, multi, rise][i % 5](m, rng)


def glf(m, rng):
    from simcats.support_functions import glf as f, inverse_glf as inv
    p = params(rng)
    if rng.random() < 0.25:
        p["asymmetry"] = float(np.exp(gen.u(rng, np.log(0.02), np.log(15))))
    off = float(gen.u(rng, -1, 1))
    den = 1.0 if rng.random() < 0.6 else float(gen.u(rng, 0.5, 2))
    x = sample_x(rng, p, off)
    w = dict(par=p, offset=off, den=den)
    if den == 1.0:
        judge_function(m, rng, lambda v: f(v, **p, denominator_offset=den, offset=off), p, off, x, **w)
        m.check(np.array_equal(f(x, **p, offset=off), f(x, **p, denominator_offset=1, offset=off)), "defaults", "denominator offset default", **w)
        m.check(np.array_equal(f(x, **p), f(x, **p, denominator_offset=1, offset=0)), "defaults", "offset default", **w)
    else:
        m.close(f(x, **p, denominator_offset=den, offset=off), expected(p, x, off, den), "value", "function value", rtol=1e-9, atol=1e-12, **w)
    # inverse of values strictly between the reachable limits
    top = p["asymptote_left"] + (p["asymptote_right"] - p["asymptote_left"]) / den ** (1 / p["asymmetry"])
    fr = gen.u(rng, 0.002, 0.998, 20)
    v = p["asymptote_left"] + fr * (top - p["asymptote_left"])
    z = np.asarray(inv(v, **p, denominator_offset=den, offset=off))
    m.close(z, ref.inv_glf(v, p["asymptote_left"], p["asymptote_right"], p["growth_rate"], p["asymmetry"], p["shape_factor"], den, off),
            "inverse_value", "inverse", rtol=1e-6, atol=1e-6 / abs(p["growth_rate"]), **w)
    m.close(f(z, **p, denominator_offset=den, offset=off), v, "round_trip", "glf(inverse(v))", rtol=1e-6, atol=1e-6, **w)
    m.check(abs(float(inv(float(v[0]), **p, denominator_offset=den, offset=off)) - z[0]) < 1e-12 * max(1, abs(z[0])), "elementwise", "scalar inverse", **w)
    m.distinct(x, z)
    m.sample(**w)


def barrier(m, rng):
    from simcats.sensor.barrier_function import BarrierFunctionGLF
    p = params(rng, den=True)
    off = float(gen.u(rng, -1, 1))
    po, fc = np.sort(gen.u(rng, 0.003, 0.997, 2))
    b = BarrierFunctionGLF(pinch_off_percentage=float(po), fully_conductive_percentage=float(fc), **p, offset=off)
    w = dict(par=p, offset=off, pinch_off=po, fully_conductive=fc)
    judge_function(m, rng, b.get_value, p, off, sample_x(rng, p, off), **w)

    def judge(b, p, off, po, fc):
        lo, hi = sorted((p["asymptote_left"], p["asymptote_right"]))
        for name, f in (("pinch_off", po), ("fully_conductive", fc)):
            x = float(getattr(b, name))
            got = (float(b.get_value(x)) - lo) / (hi - lo)
            m.check(abs(got - f) < 1e-6, name, f"{got} of the range is reached at the {name} potential instead of {f}", **w)
    judge(b, p, off, po, fc)
    # changed parameters are used by function and inverse
    p2, off2 = params(rng, den=True), float(gen.u(rng, -1, 1))
    po2, fc2 = np.sort(gen.u(rng, 0.003, 0.997, 2))
    for k, v in p2.items():
        setattr(b, k, v)
    b.offset, b.pinch_off_percentage, b.fully_conductive_percentage = off2, float(po2), float(fc2)
    x = sample_x(rng, p2, off2)
    m.close(b.get_value(x), expected(p2, x, off2), "setters", "value after changing the parameters", rtol=1e-9, atol=1e-12, **w)
    judge(b, p2, off2, po2, fc2)
    m.distinct(list(p.values()), off)


def multi(m, rng):
    from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
    n = int(rng.integers(1, 5))
    ps = [(params(rng, False, den=True), float(gen.u(rng, -0.2, 0.2))) for _ in range(n)]
    flat = [v for p, off in ps for v in (p["asymptote_left"], p["asymptote_right"], p["growth_rate"], p["asymmetry"], p["shape_factor"], p["denominator_offset"], off)]
    po, fc = -0.1, 0.3
    b = BarrierFunctionMultiGLF(po, fc, *flat)
    x = np.sort(gen.u(rng, -0.6, 0.6, 60))
    y = np.asarray(b.get_value(x))
    w = dict(n=n, params=flat)
    m.close(y, sum(expected(p, x, off) for p, off in ps), "sum_of_components", "multi component barrier", rtol=1e-9, atol=1e-12, **w)
    m.check((np.diff(y) >= -1e-12).all(), "monotonic", "not monotonic", **w)
    m.check(abs(float(b.get_value(float(x[7]))) - y[7]) < 1e-9, "elementwise", "scalar and array evaluation differ", **w)
    m.check(b.pinch_off == po and b.fully_conductive == fc, "given_points", f"{b.pinch_off}, {b.fully_conductive}", **w)
    b.params = tuple(flat[:7])
    m.close(b.get_value(x), expected(ps[0][0], x, ps[0][1]), "setters", "after reducing to one component", rtol=1e-9, atol=1e-12, **w)
    m.distinct(y)


def rise(m, rng):
    from simcats.sensor import SensorRiseGLF
    p = params(rng, False, den=True)
    mu0 = float(gen.u(rng, -0.3, 0.3)) if rng.random() < 0.8 else 0.0
    fc = float(gen.u(rng, 0.05, 0.997))
    r = SensorRiseGLF(mu0=mu0, **p, fully_conductive_percentage=fc)
    w = dict(par=p, mu0=mu0, fully_conductive=fc)
    lo, hi = p["asymptote_left"], p["asymptote_right"]
    own = float(r.fully_conductive)
    m.check(abs((float(expected(p, own, mu0)) - lo) / (hi - lo) - fc) < 1e-6, "fully_conductive", "fully conductive potential of the rise", **w)
    off = float(gen.u(rng, -1, 1))
    got = (float(r.sensor_function(off, off)) - lo) / (hi - lo)
    m.check(abs(got - fc) < 1e-6, "rise_placed", f"{got} of the range is reached at the requested offset instead of {fc}", **w)
    x = sample_x(rng, p, off)
    shift = off - (own - mu0)
    judge_function(m, rng, lambda v: r.sensor_function(v, off), p, shift, sample_x(rng, p, shift), **w)
    d = float(gen.u(rng, -0.5, 0.5))
    m.close(r.sensor_function(x + d, off + d), r.sensor_function(x, off), "rise_placed", "moving potential and offset together", rtol=1e-6, atol=1e-7, **w)
    r.fully_conductive_percentage = fc2 = float(gen.u(rng, 0.05, 0.997))
    got = (float(r.sensor_function(off, off)) - lo) / (hi - lo)
    m.check(abs(got - fc2) < 1e-6, "setters", f"{got} of the range after changing the fraction to {fc2}", **w)
    m.distinct(list(p.values()), mu0)
