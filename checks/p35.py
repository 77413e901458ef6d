"""P35: the exported helper functions agree with the components and with their documentation."""
import inspect

import numpy as np

from vmon import gen, ref
from vmon.snap import snap

PID = "P35"
TITLE = "Exported helper functions agree with the components and their documentation"
RULE = ("random arguments (given and omitted) for the exported functions of the distortions, ideal_csd.geometric, sensor and support_functions "
        "packages; results compared with independent formulas, with the components and between argument forms; arguments snapshotted; "
        "non-trivial = distinct results")
ASSUMPTIONS = ["scales in pixels of at least one", "transitions as in the other workloads"]
CASES = {"quick": 3000, "thorough": 60000}
REQUIRED = {"arguments_untouched": 1500, "fermi_filter": 150, "fermi_filter_default": 50, "fermi_kernel": 150, "dot_jumps": 150, "dot_jumps_reapplied": 150, "dot_jumps_zero": 8,
            "noise_data_independent": 300, "noise_like_component": 150, "noise_shape": 300, "telegraph_values": 100, "tct_formats": 150, "anchor_formats": 150,
            "diagram_like_component": 100, "diagram_from_stages": 60, "diagram_defaults": 60, "line_shapes": 150, "cdf": 150, "cdf_sum": 150, "defaults_stated": 10}


LAYOUT = {}


def run_case(m, rng, i):
    LAYOUT["rng"] = np.random.default_rng(int(rng.integers(2 ** 62)))
    [fermi, jumps, noise, telegraph, formats, diagram, shapes, cdfs, fermi, noise][i % 10](m, rng)
    if i < 40:
        stated_defaults(m)


def call(m, f, *a, **k):
    """Call with snapshots of the arguments (generators excluded); arrays come in any memory layout."""
    lay = lambda x: gen.layout(LAYOUT["rng"], x, 0.25, True) if type(x) is np.ndarray and x.ndim else x
    a, k = [lay(x) for x in a], {n: lay(x) for n, x in k.items()}
    arrs = [x for x in list(a) + list(k.values()) if not isinstance(x, np.random.Generator)]
    before = [snap(x) for x in arrs]
    out = f(*a, **k)
    m.check([snap(x) for x in arrs] == before, "arguments_untouched", f.__name__)
    return out


# ------------------------------------------------------------------------------------------------ filters
PAD = {"reflect": "symmetric", "grid-mirror": "symmetric", "constant": "constant", "grid-constant": "constant", "nearest": "edge",
       "mirror": "reflect", "wrap": "wrap", "grid-wrap": "wrap"}


def fermi_reference(x, sigma, axis, mode, cval, radius):
    r = int(round(4.0 * sigma)) if radius is None else radius
    t = np.arange(-r, r + 1) / sigma
    # stable square of 1 / cosh
    e = np.exp(-2 * np.abs(t))
    k = 4 * e / (1 + e) ** 2
    k = k / k.sum()
    x = np.moveaxis(np.asarray(x, float), axis, -1)
    pad = [(0, 0)] * (x.ndim - 1) + [(r, r)]
    kw = {"constant_values": cval} if PAD[mode] == "constant" else {}
    p = np.pad(x, pad, mode=PAD[mode], **kw)
    n = x.shape[-1]
    out = sum(k[j] * p[..., j:j + n] for j in range(2 * r + 1))
    return np.moveaxis(out, -1, axis)


def fermi(m, rng):
    from simcats.support_functions import fermi_dirac_derivative, fermi_filter1d
    nd = int(rng.integers(1, 4))
    shape = tuple(int(s) for s in rng.integers(3, 14, nd))
    x = rng.normal(size=shape) * 3 + 1
    sigma = float(gen.u(rng, 0.4, 2.5))
    if rng.random() < 0.3:
        y = call(m, fermi_filter1d, x, sigma)
        m.close(y, fermi_reference(x, sigma, -1, "reflect", 0.0, None), "fermi_filter_default", "fermi_filter1d(input, sigma)", rtol=1e-9, atol=1e-12, shape=shape, sigma=sigma)
    kw = {}
    axis = int(rng.integers(-nd, nd))
    mode = str(rng.choice(list(PAD)))
    cval = float(gen.u(rng, -3, 3))
    radius = int(rng.integers(0, 7)) if rng.random() < 0.5 else None
    kw = dict(axis=axis, mode=mode, cval=cval, radius=radius)
    std = dict(axis=-1, mode="reflect", cval=0.0, radius=None)
    for n in list(kw):
        if rng.random() < 0.3:
            kw.pop(n)
    full = {**std, **kw}
    y = call(m, fermi_filter1d, x, sigma, **kw)
    m.close(y, fermi_reference(x, sigma, **full), "fermi_filter", f"fermi_filter1d({kw})", rtol=1e-9, atol=1e-12, shape=shape, sigma=sigma)
    t = rng.normal(size=20) * 4
    x0 = float(gen.u(rng, -2, 2))
    s = float(np.exp(gen.u(rng, -5, 3)))
    with np.errstate(all="ignore"):
        m.close(call(m, fermi_dirac_derivative, t * s + x0, x0, s), 0.5 / s / np.cosh(np.clip((t * s + x0 - x0) / s, -300, 300)) ** 2, "fermi_kernel", "", rtol=1e-9, atol=1e-300)
    m.distinct(y)


# ------------------------------------------------------------------------------------------------ dot jumps
def shifted(orig, noise, axis):
    n = orig.shape[axis]
    idx = np.maximum(0, np.arange(n) - np.asarray(noise).astype(int))
    return np.take(orig, idx, axis=axis)


def jumps(m, rng):
    from simcats.distortions import dot_jumps_blockwise
    shape = tuple(int(s) for s in rng.integers(2, 30, 2))
    a, b = rng.normal(size=shape), rng.integers(0, 5, shape).astype(float)
    scale = float(gen.u(rng, 1, 12))
    lam = float(gen.u(rng, 0, 4))
    axis = int(rng.integers(2))
    seed = int(rng.integers(2 ** 31))
    kw = {} if axis == 1 and rng.random() < 0.5 else {"axis": axis}
    g = {} if rng.random() < 0.2 else {"rng": np.random.default_rng(seed)}
    w = dict(shape=shape, scale=scale, lam=lam, axis=axis)
    if rng.random() < 0.12:
        out, noise = call(m, dot_jumps_blockwise, a, 0, lam, **kw, **g)
        m.check(np.array_equal(out, a) and noise.shape == (shape[axis],) and not noise.any(), "dot_jumps_zero", "scale 0", **w)
        return
    out, noise = call(m, dot_jumps_blockwise, a, scale, lam, **kw, **g)
    noise = np.asarray(noise)
    m.check(noise.shape == (shape[axis],) and np.array_equal(noise, np.round(noise)) and noise.min() >= 0 and noise[0] == 0, "dot_jumps_shift",
            "one non-negative number of pixels per row/column, starting without jump", noise=noise, **w)
    m.check(np.array_equal(out, shifted(a, noise, axis)), "dot_jumps", "shifted image", noise=noise, **w)
    out2, noise2 = call(m, dot_jumps_blockwise, b, scale, lam, noise, **kw, **({} if rng.random() < 0.5 else {"rng": np.random.default_rng(seed + 1)}))
    m.check(np.array_equal(noise2, noise) and np.array_equal(out2, shifted(b, noise, axis)), "dot_jumps_reapplied", "reapplied to a second image", noise=noise, **w)
    if g:
        out3, noise3 = dot_jumps_blockwise(b, scale, lam, axis=axis, rng=np.random.default_rng(seed))
        m.check(np.array_equal(noise3, noise) and np.array_equal(out3, out2), "dot_jumps_reapplied", "same generator state, other image", **w)
    m.distinct(noise, out)


# ------------------------------------------------------------------------------------------------ noise
def noise(m, rng):
    from simcats.distortions import SensorPotentialPinkNoise, SensorResponseWhiteNoise, pink_gaussian_noise, random_telegraph_noise, white_gaussian_noise
    shape = tuple(int(s) for s in rng.integers(2, 16, int(rng.integers(1, 3))))
    x, y = rng.normal(size=shape) * 2, rng.normal(size=shape) * 0.1
    seed = int(rng.integers(2 ** 31))
    s = float(np.exp(gen.u(rng, np.log(1e-4), np.log(10))))
    kind = ("white", "pink", "rtn")[int(rng.integers(3))]
    fmin = float(gen.u(rng, 0, 0.4))
    v = np.array([0.0, 0.1])
    if kind == "white":
        f = lambda d, st, g: call(m, white_gaussian_noise, d, st, g)  # noqa
        o = SensorResponseWhiteNoise(sigma=s, rng=np.random.default_rng(seed))
        plain = white_gaussian_noise(x, s)
    elif kind == "pink":
        f = lambda d, st, g: call(m, pink_gaussian_noise, d, st, fmin, g)  # noqa
        o = SensorPotentialPinkNoise(sigma=s, fmin=fmin, rng=np.random.default_rng(seed))
        plain = pink_gaussian_noise(x, s, fmin)
    else:
        scale = float(gen.u(rng, 1, 8))
        f = lambda d, st, g: call(m, random_telegraph_noise, d, scale, st * 0.2, st, g)  # noqa
        o = None
        plain = random_telegraph_noise(x, scale, s * 0.2, s)
    a = f(x, s, np.random.default_rng(seed))
    w = dict(kind=kind, shape=shape, strength=s, seed=seed)
    m.check(np.shape(a) == shape and np.shape(plain) == shape, "noise_shape", kind, **w)
    tol = 1e-12 * (s + 10)
    m.close(a - x, f(y, s, np.random.default_rng(seed)) - y, "noise_data_independent", kind, rtol=1e-6, atol=tol, **w)
    m.close(2 * (a - x), f(y, 2 * s, np.random.default_rng(seed)) - y, "noise_linear", kind, rtol=1e-6, atol=tol, **w)
    # C and F ordered input are the same data
    m.check(np.array_equal(f(np.asfortranarray(x), s, np.random.default_rng(seed)), a), "memory_layout", kind, **w)
    if o is not None:
        m.close(o.noise_function(x.copy(), v, v if len(shape) == 2 else np.array([0.0, 0.0])), a, "noise_like_component", kind, rtol=1e-9, atol=tol, **w)
    if kind != "rtn" and np.prod(shape) > 3:
        # another call continues with new noise
        g = np.random.default_rng(seed)
        p, q = f(x, s, g), f(x, s, g)
        m.check(not np.array_equal(p, q), "noise_never_repeats", kind, **w)
        u1, u2 = (white_gaussian_noise(x, s), white_gaussian_noise(x, s)) if kind == "white" else (pink_gaussian_noise(x, s, fmin), pink_gaussian_noise(x, s, fmin))
        m.check(not np.array_equal(u1, u2), "noise_never_repeats", f"{kind} without generator", **w)
    m.distinct(a)


def telegraph(m, rng):
    from simcats.distortions import random_telegraph_noise
    shape = tuple(int(s) for s in rng.integers(3, 20, int(rng.integers(1, 3))))
    x = rng.normal(size=shape)
    seed = int(rng.integers(2 ** 31))
    h = float(gen.u(rng, -2, 2))
    w = dict(shape=shape, height=h, seed=seed)
    m.check(np.array_equal(call(m, random_telegraph_noise, x, 0, 0.1, h, np.random.default_rng(seed)), x), "telegraph_off", "scale 0", **w)
    scale = float(gen.u(rng, 1, 6))
    d = (random_telegraph_noise(np.zeros(shape), scale, 0.0, h, np.random.default_rng(seed))).ravel()
    on = d != 0
    m.check(np.all(d[on] == h) and not on[0], "telegraph_values", "without deviation every burst has the given height, beginning without burst", noise=d, **w)
    e = random_telegraph_noise(np.zeros(shape), scale, abs(h) * 0.1 + 1e-3, h, np.random.default_rng(seed)).ravel()
    # constant within every burst
    start = np.flatnonzero(np.diff(np.concatenate([[False], e != 0]).astype(int)) == 1)
    stop = np.flatnonzero(np.diff(np.concatenate([e != 0, [False]]).astype(int)) == -1)
    m.check(all(np.ptp(e[a:b + 1]) == 0 for a, b in zip(start, stop)), "telegraph_values", "bursts are constant", noise=e, **w)
    one = random_telegraph_noise(np.zeros(shape), 1, 0.0, h, np.random.default_rng(seed)).ravel()
    m.check(np.array_equal(one, np.where(np.arange(one.size) % 2, h, 0.0)), "telegraph_values", "scale 1 switches at every pixel", **w)
    m.distinct(d)


# ------------------------------------------------------------------------------------------------ transitions
def formats(m, rng):
    from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions
    kw = gen.ideal_kwargs(rng, lut=None)
    ps = kw["tct_params"]
    forms = [("arrays", [p.copy() for p in ps]), ("lists", [[float(x) for x in p] for p in ps]), ("2D array", np.array(ps))]
    if rng.random() < 0.4:
        ps = ps[:1]
        forms = [("array", ps[0].copy()), ("list", [float(x) for x in ps[0]]), ("one array", [ps[0].copy()]), ("2D array", np.array(ps))]
    first = int(rng.integers(1, 5)) if rng.random() < 0.5 else None
    mp = {} if first is None else {"max_peaks": first}
    n0 = first or 1
    rot = {} if rng.random() < 0.4 else {"rotation": float(gen.u(rng, -1, 1))}
    angle = rot.get("rotation", -np.pi / 4)
    tr = [ref.TCT(p, n0 + k) for k, p in enumerate(ps)]
    x = gen.u(rng, tr[0].c0[0] - 0.03, tr[-1].c0[0] + 0.1, 6)
    lut = None if rng.random() < 0.6 else 2000
    for name, f in forms:
        w = dict(form=name, max_peaks=first, params=ps)
        fs = call(m, initialize_tct_functions, f, **mp)
        m.check(sorted(fs) == list(range(n0, n0 + len(ps))), "tct_formats", f"keys {sorted(fs)}", **w)
        for k, t in enumerate(tr):
            y = fs[n0 + k](x_eval=x.copy(), **({} if lut is None else {"lut_entries": lut}))
            m.close(y, t(x), "tct_formats", f"transition {n0 + k}", rtol=0, atol=1e-9 if lut is None else 3e-5, **w)
            one = fs[n0 + k](x_eval=float(x[0]), **({} if lut is None else {"lut_entries": lut}))
            m.check(abs(float(one) - y[0]) < 1e-12, "tct_formats", "single value", **w)
        an = call(m, calculate_all_bezier_anchors, f, **mp, **rot)
        m.check(sorted(an) == list(range(n0, n0 + len(ps))), "anchor_formats", f"keys {sorted(an)}", **w)
        for k, t in enumerate(tr):
            want = np.array([[ref.rot(np.asarray(z), angle) for z in t.anchors(j)] for j in range(2 * (n0 + k) - 1)])
            m.close(an[n0 + k], want, "anchor_formats", f"transition {n0 + k}, rotation {angle}", rtol=0, atol=1e-10, **w)
    m.distinct(ps, x)


def diagram(m, rng):
    from simcats.ideal_csd import IdealCSDGeometric
    from simcats.ideal_csd import geometric as g
    kw = gen.ideal_kwargs(rng, n=int(rng.integers(2, 4)), lut=True)
    std = {"rotation": -np.pi / 4, "lut_entries": None, "cdf_type": "sigmoid", "cdf_gamma_factor": None}
    omit = [n for n in std if rng.random() < 0.35]
    if "lut_entries" in omit and rng.random() < 0.6:
        omit.remove("lut_entries")
    for n in omit:
        kw[n] = std[n]
    short = {n: v for n, v in kw.items() if n not in omit}
    r = gen.csd_ref(kw)
    two_d = rng.random() < 0.5
    if two_d:
        v1, v2 = gen.window(rng, r, size=(0.006, 0.03))
        res = np.array(gen.resolution2(rng, v1, v2, hi=22, elongated=0, r=r))
        v1, v2 = gen.flip(rng, v1), gen.flip(rng, v2)
    else:
        v1, v2, _ = gen.line(rng, r)
        res = int(rng.integers(5, 30))
    w = dict(volt_limits_g1=v1, volt_limits_g2=v2, resolution=res, omitted=omit, config=kw)
    occ, lab = IdealCSDGeometric(**kw).get_csd_data(v1.copy(), v2.copy(), res)
    occ2, lab2 = call(m, g.ideal_csd_geometric, kw["tct_params"], v1, v2, res, **{n: v for n, v in short.items() if n != "tct_params"})
    m.check(np.array_equal(lab, lab2), "diagram_like_component", "labels of ideal_csd_geometric", **w)
    m.close(occ2, occ, "diagram_like_component", "occupations of ideal_csd_geometric", rtol=1e-9, atol=1e-12, **w)
    if omit:
        o3, l3 = IdealCSDGeometric(**short).get_csd_data(v1.copy(), v2.copy(), res)
        m.check(np.array_equal(l3, lab) and np.allclose(o3, occ, rtol=1e-9, atol=1e-12), "diagram_defaults", f"omitted {omit}", **w)
    # stage by stage
    s1, s2 = (np.sort(v1), np.sort(v2)) if two_d else (v1, v2)
    fs = g.initialize_tct_functions(tct_params=kw["tct_params"])
    an = g.calculate_all_bezier_anchors(tct_params=kw["tct_params"], **({} if "rotation" in omit else {"rotation": kw["rotation"]}))
    opt = {n: short[n] for n in ("rotation", "lut_entries") if n in short}
    opt2 = {n: short[n] for n in ("rotation", "lut_entries", "cdf_type", "cdf_gamma_factor") if n in short}
    if rng.random() < 0.5:
        fs, an = dict(reversed(list(fs.items()))), dict(reversed(list(an.items())))
    csd = np.zeros(res[::-1] if two_d else res)
    if two_d:
        mask = call(m, g.generate_lead_transition_mask_2d, csd=csd, volt_limits_g1=s1, volt_limits_g2=s2, tct_functions=dict(fs), **opt)
        o4 = call(m, g.get_electron_occupation, csd=mask, volt_limits_g1=s1, volt_limits_g2=s2, bezier_coords=an, tct_functions=dict(fs), **opt2)
        i2, i1 = slice(None, None, -1 if v2[0] > v2[1] else 1), slice(None, None, -1 if v1[0] > v1[1] else 1)
        mask, o4 = np.asarray(mask)[i2, i1], o4[i2, i1]
    else:
        o4 = call(m, g.get_electron_occupation, csd=csd, volt_limits_g1=s1, volt_limits_g2=s2, bezier_coords=an, tct_functions=dict(fs), **opt2)
        mask = call(m, g.generate_lead_transition_mask_1d, o4)
    m.check(np.array_equal(mask, lab), "diagram_from_stages", "labels", **w)
    m.close(o4, occ, "diagram_from_stages", "occupations", rtol=1e-9, atol=1e-12, **w)
    m.distinct(occ)


# ------------------------------------------------------------------------------------------------ formulas
def shapes(m, rng):
    from simcats.sensor import SensorPeakGaussian, SensorPeakLorentzian, sensor_response_gauss, sensor_response_lorentz
    shape = tuple(int(s) for s in rng.integers(1, 8, int(rng.integers(1, 4))))
    mu = rng.normal(size=shape)
    gauss = rng.random() < 0.5
    wn = "sigma" if gauss else "gamma"
    full = {"mu0": float(rng.normal()), wn: float(np.exp(gen.u(rng, -3, 1))), "height": float(rng.normal()), "offset": float(rng.normal())}
    kw = {n: v for n, v in full.items() if rng.random() < 0.6}
    p = {"mu0": 0, wn: 1, "height": 1, "offset": 0, **kw}
    f, cls = (sensor_response_gauss, SensorPeakGaussian) if gauss else (sensor_response_lorentz, SensorPeakLorentzian)
    d = (mu - p["mu0"]) / p[wn]
    want = p["offset"] + p["height"] * (np.exp(-d * d) if gauss else 1 / (1 + d * d))
    w = dict(function=f.__name__, given=kw)
    m.close(call(m, f, mu, **kw), want, "line_shapes", "function", rtol=1e-9, atol=1e-13, **w)
    m.close(call(m, cls(**kw).sensor_function, mu), want, "line_shapes", "component", rtol=1e-9, atol=1e-13, **w)
    args = [full[n] for n in full][:int(rng.integers(0, 5))]
    q = dict(zip(full, args))
    m.close(f(mu, *args), f(mu, **q), "line_shapes", "positional arguments", rtol=1e-12, **w)
    x = float(mu.ravel()[0])
    m.check(abs(float(f(x, **kw)) - want.ravel()[0]) < 1e-9, "line_shapes", "single value", **w)
    m.distinct(want)


def cdf_ref(x, x0, gam, kind):
    if abs(gam) <= 1e-8:
        return np.where(x > x0, 1.0, 0.0)
    u = (x - x0) / gam
    return 0.5 * (1 + np.tanh(u)) if kind == "sigmoid" else np.arctan(u) / np.pi + 0.5


def cdfs(m, rng):
    from simcats.support_functions import cauchy_cdf, multi_cauchy_cdf, multi_sigmoid_cdf, sigmoid_cdf
    kind = "sigmoid" if rng.random() < 0.5 else "cauchy"
    f, fm = (sigmoid_cdf, multi_sigmoid_cdf) if kind == "sigmoid" else (cauchy_cdf, multi_cauchy_cdf)
    x = rng.normal(size=tuple(int(s) for s in rng.integers(1, 7, int(rng.integers(1, 3)))))
    x0 = float(rng.normal())
    gam = 0.0 if rng.random() < 0.15 else float(rng.choice([1, -1], p=[0.85, 0.15]) * np.exp(gen.u(rng, np.log(1e-4), np.log(5))))
    w = dict(kind=kind, x0=x0, gam=gam)
    m.close(call(m, f, x, x0, gam), cdf_ref(x, x0, gam, kind), "cdf", "", rtol=1e-9, atol=1e-12, **w)
    n = int(rng.integers(0, 5))
    pars = []
    for _ in range(n):
        pars += [float(rng.normal()), 0.0 if rng.random() < 0.15 else float(np.exp(gen.u(rng, np.log(1e-4), np.log(5))))]
    want = np.sum([cdf_ref(x, *pars[2 * k:2 * k + 2], kind) for k in range(n)], axis=0) if n else 0.0
    got = call(m, fm, x, pars)
    m.check(np.allclose(got, want, rtol=1e-9, atol=1e-12), "cdf_sum", "", params=pars, kind=kind, x=x, got=got, want=want)
    try:
        fm(x, pars + [1.0])
        ok = False
    except (AssertionError, ValueError):
        ok = True
    m.check(ok, "cdf_odd_refused", "an odd number of parameters was accepted", kind=kind)
    m.distinct(want)


def stated_defaults(m):
    """Defaults that the documentation states explicitly."""
    from simcats.ideal_csd import IdealCSDGeometric
    from simcats.ideal_csd import geometric as g
    from simcats.support_functions import fermi_filter1d
    for f, n, v in [(fermi_filter1d, "axis", -1), (fermi_filter1d, "mode", "reflect"), (fermi_filter1d, "cval", 0.0), (fermi_filter1d, "radius", None),
                    (g.initialize_tct_functions, "max_peaks", 1), (g.calculate_all_bezier_anchors, "max_peaks", 1),
                    (g.calculate_all_bezier_anchors, "rotation", -np.pi / 4), (g.generate_lead_transition_mask_2d, "rotation", -np.pi / 4),
                    (g.get_electron_occupation, "rotation", -np.pi / 4), (g.get_electron_occupation, "cdf_type", "sigmoid"),
                    (g.ideal_csd_geometric, "rotation", -np.pi / 4), (IdealCSDGeometric.get_csd_data, "resolution", [100, 100]),
                    (g.ideal_csd_geometric, "resolution", [100, 100])]:
        p = inspect.signature(f).parameters.get(n)
        if p is None or p.default is inspect.Parameter.empty or p.default is None and v is not None:
            continue
        m.check(np.array_equal(p.default, v) if v is not None and not isinstance(v, str) else p.default == v, "defaults_stated", f"{f.__name__}: {n} = {p.default!r} instead of {v!r}")
