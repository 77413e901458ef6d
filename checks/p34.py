"""P34: component settings act like constructor arguments; defaults, refusals, copies and independence of components."""
import copy
import types

import numpy as np

from vmon import gen, ref
from vmon.snap import public

PID = "P34"
TITLE = "Component settings act like constructor arguments, and components are independent"
RULE = ("every shipped component class with random settings: settings changed one by one on a used object against a fresh object, "
        "omitted against documented default settings, invalid settings, printed forms, copies, and sensors built from shared parts of which one "
        "is changed; non-trivial = distinct observed results")
ASSUMPTIONS = ["random components are compared for equal generator states", "parameters in the ranges of the other workloads"]
CASES = {"quick": 4000, "thorough": 60000}
REQUIRED = {"settings_like_constructor": 300, "reads_back": 900, "defaults": 250, "default_reads_back": 250, "refused": 100, "kept_after_refusal": 100,
            "printable": 300, "printing_changes_nothing": 300, "copy_behaves_the_same": 250, "copy_is_independent": 250,
            "other_component_unaffected": 150, "supplied_parts_unaffected": 150, "sensor_unaffected_by_supplied_parts": 150, "in_place_same_effect": 150}

F = float
IDEAL = ("tct_params", "rotation", "lut_entries", "cdf_type", "cdf_gamma_factor")


def new_rng(rng):
    return np.random.default_rng(int(rng.integers(2 ** 31)))


def fixed(rng, lo, hi):
    return F(np.exp(gen.u(rng, np.log(lo), np.log(hi))))


def number_or_sampler(rng, lo, hi):
    if rng.random() < 0.6:
        return F(gen.u(rng, lo, hi))
    from simcats.support_functions import UniformSamplingRange
    return UniformSamplingRange(total_range=(lo, hi), rng=new_rng(rng))


def _peak(rng, width):
    return {}, {"mu0": (0, F(gen.u(rng, -0.2, 0.2))), width: (1, fixed(rng, 0.003, 0.5)), "height": (1, F(gen.u(rng, -2, 2))),
                "offset": (0, F(gen.u(rng, -1, 1)))}


def p_gauss(rng):
    return _peak(rng, "sigma")


def p_lorentz(rng):
    return _peak(rng, "gamma")


def p_rise(rng):
    k = gen.rise_params(rng, 0.02)
    k["denominator_offset"] = F(gen.u(rng, 0.9, 1))
    opt = {n: (d, k.pop(n)) for n, d in (("denominator_offset", 1), ("fully_conductive_percentage", 0.99))}
    return k, opt


def p_barrier(rng):
    k = gen.barrier_params(rng)
    k["denominator_offset"] = F(gen.u(rng, 0.8, 1))
    opt = {n: (d, k.pop(n)) for n, d in (("denominator_offset", 1), ("offset", 0))}
    return k, opt


def p_circle(rng):
    return {"radius": F(rng.choice([-1, 1]) * gen.u(rng, 0.003, 0.03))}, {}


def p_linear(rng):
    return {"angle": F(gen.u(rng, 0.02, np.pi - 0.02))}, {}


def p_blur(rng):
    return {"sigma": number_or_sampler(rng, 2e-4, 2e-3)}, {}


def p_jumps(rng):
    return {"scale": number_or_sampler(rng, 2e-3, 2e-2), "lam": number_or_sampler(rng, 5e-4, 3e-3), "axis": int(rng.integers(2)),
            "rng": new_rng(rng)}, {"ratio": (1, F(rng.choice([0.5, 0.9, 0.0])))}


def p_pink(rng):
    return {"sigma": number_or_sampler(rng, 1e-5, 1e-3), "rng": new_rng(rng)}, {"fmin": (0, F(gen.u(rng, 0.05, 0.4)))}


def p_rtn(rng):
    return {"scale": number_or_sampler(rng, 2e-3, 2e-2), "std": number_or_sampler(rng, 1e-4, 1e-2), "height": number_or_sampler(rng, 1e-3, 1e-1),
            "rng": new_rng(rng)}, {"ratio": (1, F(rng.choice([0.5, 0.9, 0.0])))}


def p_white(rng):
    return {"sigma": number_or_sampler(rng, 1e-4, 1e-1), "rng": new_rng(rng)}, {}


def p_ideal(rng):
    k = gen.ideal_kwargs(rng, n=int(rng.integers(2, 4)), lut=True, rotation=-np.pi / 4 + gen.u(rng, -0.1, 0.1))
    if k["cdf_gamma_factor"] is None:
        k["cdf_gamma_factor"] = F(gen.u(rng, 1.5, 9))
    return {"tct_params": k["tct_params"]}, {"rotation": (-np.pi / 4, k["rotation"]), "lut_entries": (None, k["lut_entries"]),
                                             "cdf_type": ("sigmoid", k["cdf_type"]), "cdf_gamma_factor": (None, k["cdf_gamma_factor"])}


def p_generic(rng):
    k = gen.generic_params(rng, with_peaks=True)
    return {}, {"sensor_peak_function": (None, k["sensor_peak_function"]), "alpha_dot": (np.array([-1, -1]), k["alpha_dot"]),
                "alpha_gate": (np.array([0, 0]), k["alpha_gate"]), "offset_mu_sens": (0, k["offset_mu_sens"])}


def p_scan(rng):
    kw, v1, v2 = gen.scan_sensor_parts(rng, rise=True)
    z = np.zeros((3, 2))
    r = {n: kw[n] for n in ("barrier_functions", "sensor_peak_function", "alpha_sensor_gate")}
    return r, {"alpha_dot": (z, kw["alpha_dot"]), "alpha_gate": (z, kw["alpha_gate"]),
               "offset_mu_sens": (np.zeros(3), kw["offset_mu_sens"]),
               "final_rise": (None, kw["final_rise"])}


def p_multi(rng):
    return {"pinch_off": F(gen.u(rng, -0.3, -0.1)), "fully_conductive": F(gen.u(rng, 0.1, 0.3)),
            "params": tuple(F(x) for _ in range(int(rng.integers(1, 4))) for x in
                            (0, gen.u(rng, 0.3, 2), gen.u(rng, 10, 60), gen.u(rng, 0.3, 2), gen.u(rng, 0.3, 3), gen.u(rng, 0.8, 1), gen.u(rng, -0.1, 0.1)))}, {}


def classes():
    import simcats.distortions as d
    import simcats.sensor as s
    from simcats.ideal_csd import IdealCSDGeometric
    from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    return [(s.SensorPeakGaussian, p_gauss), (s.SensorPeakLorentzian, p_lorentz), (s.SensorRiseGLF, p_rise), (BarrierFunctionGLF, p_barrier),
            (BarrierFunctionMultiGLF, p_multi), (SensorPeakDeformationCircle, p_circle), (SensorPeakDeformationLinear, p_linear),
            (d.OccupationTransitionBlurringGaussian, p_blur), (d.OccupationTransitionBlurringFermiDirac, p_blur), (d.OccupationDotJumps, p_jumps),
            (d.SensorPotentialPinkNoise, p_pink), (d.RandomTelegraphNoise, p_rtn), (d.SensorPotentialRTN, p_rtn), (d.SensorResponseRTN, p_rtn),
            (d.SensorResponseWhiteNoise, p_white), (IdealCSDGeometric, p_ideal), (s.SensorGeneric, p_generic), (s.SensorScanSensorGeneric, p_scan)]


def build(cls, kw):
    kw = copy.deepcopy(kw)
    if "params" in kw:
        return cls(kw["pinch_off"], kw["fully_conductive"], *kw["params"])
    return cls(**kw)


def use(o, seed):
    """Observable results of an object, as a function of `seed`."""
    r = np.random.default_rng(seed)
    n = type(o).__name__
    v1, v2 = np.array([-0.15, -0.12]), np.array([-0.15, -0.125])
    with np.errstate(all="ignore"):
        if n == "IdealCSDGeometric":
            v1, v2, _ = gen.line(r, gen.csd_ref({k: getattr(o, k) for k in IDEAL}))
            return list(o.get_csd_data(v1, v2, 25))
        if n == "SensorGeneric":
            mu = o.sensor_potential(r.random((5, 6, 2)) * 3, v1, v2)
            return [mu, o.sensor_response(mu)]
        if n == "SensorScanSensorGeneric":
            g = [b.pinch_off + f * (b.fully_conductive - b.pinch_off) for b, f in zip(o.barrier_functions, (0.1, 0.9))]
            mu = o.sensor_potential(r.random((7, 8, 2)), -0.13, -0.13, np.array(g), np.array(g[::-1]))
            return [mu, o.sensor_response(mu)]
        x = np.linspace(-0.3, 0.3, 61)
        if "Deformation" in n:
            o.sensor = copy.deepcopy(_host())
            return [o.calc_mu(dist=np.linspace(-0.05, 0.05, 31), mu0=0.1), o.calc_mu(dist=0.004, mu0=-0.1)]
        if "Rise" in n:
            return [o.sensor_function(x, offset=0.01), o.fully_conductive]
        if "SensorPeak" in n:
            return [o.sensor_function(x)]
        if "Barrier" in n:
            return [o.get_value(x), o.pinch_off, o.fully_conductive]
        if "Occupation" in n:
            occ, lab = r.random((12, 14, 2)), r.integers(0, 3, (12, 14)).astype(np.uint8)
            out = list(o.noise_function(occ.copy(), lab.copy(), v1, v2))
            return out + list(o.noise_function(occ[0].copy(), lab[0].copy(), v1, v2))
        y = r.random((12, 14))
        return [o.noise_function(y.copy(), v1, v2), o.noise_function(y[0].copy(), v1, v2)]


_HOST = []


def _host():
    if not _HOST:
        from simcats.sensor import SensorPeakGaussian, SensorScanSensorGeneric
        from simcats.sensor.barrier_function import BarrierFunctionGLF
        b = BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=1,
                               growth_rate=30, asymmetry=1.0, shape_factor=1.0)
        _HOST.append(SensorScanSensorGeneric(barrier_functions=b, sensor_peak_function=[SensorPeakGaussian(mu0=0.1, sigma=0.01, height=0.1)],
                                             alpha_sensor_gate=np.array([[0.3, 0.4], [1.0, 0.1], [0.1, 1.0]])))
    return _HOST[0]


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-13, equal_nan=True)
                                    for x, y in zip(a, b))


def equal_value(got, want):
    """A setting that is read back equals the one that was set."""
    if isinstance(want, (np.ndarray, int, float, np.generic)):
        return np.array_equal(np.asarray(got), np.asarray(want))
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(equal_value(g, w) for g, w in zip(got, want))
    if want is None or isinstance(want, str):
        return (got is None) if want is None else got == want
    if isinstance(want, np.random.Generator):
        return got.bit_generator.state == want.bit_generator.state
    return public(got) == public(want)


def run_case(m, rng, i):
    cl = classes()
    cls, par = cl[i % len(cl)]
    k = (i // len(cl)) % 8
    m.event(cls.__name__)
    [settings, defaults, refusals, printing, copies, sharing, settings, reached][k](m, rng, cls, par)


def merged(req, opt):
    kw = dict(req)
    kw.update({n: v for n, (_, v) in opt.items()})
    return kw


def settings(m, rng, cls, par):
    a_kw = merged(*par(rng))
    b_kw = merged(*par(rng))
    seed = int(rng.integers(2 ** 31))
    a = build(cls, a_kw)
    if rng.random() < 0.7:
        use(a, seed + 1)
    names = [n for n in b_kw if n != "rng"]
    rng.shuffle(names)
    names = names[:int(rng.integers(1, len(names) + 1))]
    want = dict(a_kw)
    changed = []
    for n in names:
        setattr(a, n, copy.deepcopy(b_kw[n]))
        want[n] = copy.deepcopy(b_kw[n])
        changed.append(n)
        m.check(equal_value(getattr(a, n), b_kw[n]), "reads_back", f"{cls.__name__}.{n}", value=repr(b_kw[n]), got=repr(getattr(a, n)))
        if n == names[-1] or rng.random() < 0.5:
            compare(m, cls, a, want, list(changed), seed)


def compare(m, cls, a, want, names, seed):
    # samplers that were used have advanced: renew every random part of both objects
    for n, v in want.items():
        if n == "rng" or hasattr(v, "sample_parameter"):
            setattr(a, n, copy.deepcopy(v))
    b = build(cls, want)
    for n in want:
        m.check(equal_value(getattr(a, n), getattr(b, n)), "reads_back", f"{cls.__name__}.{n} after all changes", changed=names)
    ra, rb = use(a, seed), use(b, seed)
    m.check(same(ra, rb), "settings_like_constructor", f"{cls.__name__}: a changed object differs from one built with these settings",
            changed=names, settings={n: repr(v) for n, v in want.items()})
    m.sample(component=cls.__name__, changed=names, settings={n: repr(v) for n, v in want.items()})
    if not cls.__name__.startswith("SensorPeakDeformation"):
        m.check(repr(a).split("rng=")[0] == repr(b).split("rng=")[0], "same_printed_form", cls.__name__, changed=names, got=repr(a), want=repr(b))
    m.distinct(*ra)


def defaults(m, rng, cls, par):
    req, opt = par(rng)
    seed = int(rng.integers(2 ** 31))
    names = list(opt)
    omitted = [n for n in names if rng.random() < 0.6] or names[:1]
    short = {**req, **{n: v for n, (_, v) in opt.items() if n not in omitted}}
    full = {**req, **{n: (d if n in omitted else v) for n, (d, v) in opt.items()}}
    a, b = build(cls, short), build(cls, full)
    for n in omitted:
        m.check(equal_value(getattr(a, n), getattr(b, n)), "default_reads_back", f"{cls.__name__}.{n}", got=repr(getattr(a, n)), want=repr(opt[n][0]))
        if n == "alpha_sensor_gate" or not isinstance(opt[n][0], (int, float, str)):
            continue
        m.check(equal_value(getattr(a, n), opt[n][0]), "default_reads_back", f"{cls.__name__}.{n}", got=repr(getattr(a, n)), want=repr(opt[n][0]))
    ra, rb = use(a, seed), use(b, seed)
    m.check(same(ra, rb), "defaults", f"{cls.__name__}: omitting {omitted} differs from their documented defaults")
    if cls.__name__ == "IdealCSDGeometric" and "cdf_gamma_factor" in omitted:
        # the documented factor of the distribution is used
        f = dict(full, cdf_gamma_factor=2.2 if full["cdf_type"] == "sigmoid" else 6.15)
        m.check(same(ra, use(build(cls, f), seed)), "defaults", f"gamma factor of {full['cdf_type']}")
    if "rng" in short:
        # without a generator the component still works and does not touch the generator of another one
        g = new_rng(rng)
        s0 = repr(g.bit_generator.state)
        c = build(cls, {n: v for n, v in short.items() if n != "rng"})
        use(c, seed)
        m.check(isinstance(c.rng, np.random.Generator) and repr(g.bit_generator.state) == s0, "default_reads_back", f"{cls.__name__}.rng")
    m.distinct(*ra)


INVALID = {"SensorPeakGaussian": {"sigma": [0, -1, -1e-9, 0.0]}, "SensorPeakLorentzian": {"gamma": [0, -1, -1e-9, 0.0]},
           "SensorRiseGLF": {"asymmetry": [0, -0.5, -1e-9]}, "BarrierFunctionGLF": {"asymmetry": [0, -0.5, -1e-9]},
           "BarrierFunctionMultiGLF": {"params": [(1.0,), tuple(range(6)), tuple(range(1, 9)), tuple(range(13)), tuple(range(15))]}}


def refusals(m, rng, cls, par):
    req, opt = par(rng)
    kw = merged(req, opt)
    bad = INVALID.get(cls.__name__)
    seed = int(rng.integers(2 ** 31))
    if not bad:
        if cls.__name__ == "IdealCSDGeometric":
            o = build(cls, dict(kw, cdf_type=str(rng.choice(["gauss", "Sigmoid", "", "lorentz"])),
                                cdf_gamma_factor=None if rng.random() < 0.5 else 2.0))
            r = gen.csd_ref(kw)
            if rng.random() < 0.5:
                v1, v2, _ = gen.line(rng, r)
                res = 50
                pts = ref.grid(v1, v2, 50)
            else:
                v1, v2 = gen.window(rng, r)
                res = np.array([20, 20])
                pts = ref.grid(v1, v2, res)
            if not r.total(pts).max():
                return
            try:
                o.get_csd_data(v1, v2, res)
                ok = False
            except ValueError:
                ok = True
            m.check(ok, "refused", "unknown distribution of the ideal diagram", cdf_type=o.cdf_type, gamma=o.cdf_gamma_factor)
            return
        return settings(m, rng, cls, par)
    name = str(rng.choice(list(bad)))
    v = bad[name][int(rng.integers(len(bad[name])))]
    o = build(cls, kw)
    before, want = public(o), use(o, seed)
    try:
        setattr(o, name, v)
        ok = False
    except ValueError:
        ok = True
    m.check(ok, "refused", f"{cls.__name__}.{name} = {v!r} was accepted")
    m.check(public(o) == before and same(want, use(o, seed)), "kept_after_refusal", f"{cls.__name__}.{name} = {v!r}")
    try:
        build(cls, dict(kw, **{name: v}))
        ok = False
    except ValueError:
        ok = True
    m.check(ok, "refused", f"{cls.__name__}({name}={v!r}) was accepted")
    # small valid values are accepted
    if name != "params":
        o = build(cls, dict(kw, **{name: 1e-6}))
        m.check(getattr(o, name) == 1e-6, "small_values_accepted", f"{cls.__name__}.{name}")


def printing(m, rng, cls, par):
    req, opt = par(rng)
    kw = merged(req, {n: v for n, v in opt.items() if rng.random() < 0.7})
    o, twin = build(cls, kw), build(cls, kw)
    seed = int(rng.integers(2 ** 31))
    for k in range(3):
        try:
            s = repr(o)
            t = str(o)
            ok = isinstance(s, str) and type(o).__name__ in s and t == s == repr(o)
        except Exception as e:  # noqa
            s, ok = f"{type(e).__name__}: {e}", False
        m.check(ok, "printable", f"{cls.__name__}: {s}")
        for n, v in kw.items():
            if isinstance(v, (float, int)) and not isinstance(v, bool):
                m.check(repr(v) in s, "printed_settings", f"{cls.__name__}: {n}={v!r} missing in {s}")
        m.check(same(use(o, seed + k), use(twin, seed + k)), "printing_changes_nothing", cls.__name__)


def copies(m, rng, cls, par):
    kw = merged(*par(rng))
    seed = int(rng.integers(2 ** 31))
    o, twin = build(cls, kw), build(cls, kw)
    if rng.random() < 0.5:
        use(o, seed + 1), use(twin, seed + 1)
    c = copy.deepcopy(o)
    m.check(same(use(c, seed), use(copy.deepcopy(o), seed)), "copy_behaves_the_same", f"two copies of {cls.__name__}")
    # change the copy, the original is not affected
    other = merged(*par(rng))
    for n, v in other.items():
        setattr(c, n, copy.deepcopy(v))
    use(c, seed + 2)
    ro = use(o, seed)
    m.check(same(ro, use(twin, seed)), "copy_is_independent", cls.__name__)
    m.check(same(use(copy.deepcopy(o), seed + 3), use(twin, seed + 3)), "copy_behaves_the_same", f"copy of a used {cls.__name__}")
    m.distinct(*ro)


# ------------------------------------------------------------------------------------------ sensors sharing parts
def tweak(s, rng):
    """Change parts of a sensor in place, through its public attributes."""
    done = []
    for p in s.sensor_peak_function or []:
        if rng.random() < 0.7:
            p.mu0, p.height = p.mu0 + 0.01, p.height * 1.5
            done.append("peak")
    for n in ("alpha_dot", "alpha_gate", "alpha_sensor_gate"):
        a = getattr(s, n, None)
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and rng.random() < 0.6:
            a *= 1.3
            done.append(n)
        elif isinstance(a, np.ndarray) and rng.random() < 0.6:
            a += 2
            done.append(n)
    if isinstance(s.offset_mu_sens, np.ndarray) and rng.random() < 0.6:
        s.offset_mu_sens += 0.013 if s.offset_mu_sens.dtype.kind == "f" else 1
        done.append("offset")
    for b in getattr(s, "barrier_functions", ()):
        if rng.random() < 0.6 and hasattr(b, "offset"):
            b.offset += 0.017
            done.append("barrier")
    r = getattr(s, "final_rise", None)
    if r is not None and rng.random() < 0.6:
        r.asymptote_right *= 1.7
        done.append("rise")
    for d in getattr(s, "sensor_peak_deformations", {}).values():
        if rng.random() < 0.6:
            if hasattr(d, "radius"):
                d.radius *= 2.0
            else:
                d.angle = d.angle + 0.1
            done.append("deformation")
    return done


def response(s, window, deformed):
    """Noise-free plunger and sensor sweeps with a sensor."""
    with np.errstate(all="ignore"):
        if not hasattr(s, "barrier_functions"):
            return use(s, 5)
        v1, v2 = window
        mu = s.sensor_potential(np.full((9, 8, 2), 1.5), -0.13, -0.12, v1, v2)
        out = [np.array(mu), np.array(s.sensor_response(np.array(mu)))]
        out += list(s.get_sensor_scan_labels(-0.13, -0.12, v1, v2, np.array(mu)))[:1]
        return out


def sharing(m, rng, cls, par):
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    scan = rng.random() < 0.7
    deformed = False
    window = None
    if scan:
        kw, v1, v2 = gen.scan_sensor_parts(rng, rise=rng.random() < 0.7)
        window = (v1, v2)
        form = rng.integers(4)
        if form == 0:
            kw["barrier_functions"] = kw["barrier_functions"][0]
        elif form == 1:
            kw["barrier_functions"] = list(kw["barrier_functions"])
        if rng.random() < 0.3:
            kw["offset_mu_sens"] = 0.01
        for n in ("alpha_dot", "alpha_gate"):
            r = rng.random()
            if r < 0.2:
                kw[n] = kw[n][0].copy()
            elif r < 0.4:
                kw.pop(n)
        if rng.random() < 0.5:
            deformed = True
            kw["final_rise"] = None
            kw["sensor_peak_deformations"] = {int(j): SensorPeakDeformationCircle(F(gen.u(rng, 0.005, 0.05))) if rng.random() < 0.5 else
                                              SensorPeakDeformationLinear(F(np.pi / 2 + gen.u(rng, -0.3, 0.3)))
                                              for j in range(len(kw["sensor_peak_function"])) if rng.random() < 0.8}
        cls = SensorScanSensorGeneric
    else:
        cls = SensorGeneric
        kw = gen.generic_params(rng, with_peaks=True)
        for n in list(kw):
            if rng.random() < 0.25:
                kw.pop(n)
    a = cls(**kw)
    before_a = response(a, window, deformed)
    if rng.random() < 0.5:
        # another sensor, partly from the same parts, partly with own lever arms
        kw_b = dict(kw)
        if scan and rng.random() < 0.6:
            kw_b["alpha_sensor_gate"] = kw["alpha_sensor_gate"] * 1.4
        b = cls(**kw_b)
    else:
        b = cls(**kw)
    pristine_b = response(cls(**copy.deepcopy(kw_b if "kw_b" in dir() else kw)), window, deformed)
    m.check(same(response(a, window, deformed), before_a), "other_component_unaffected", f"building a second {cls.__name__} from the same parts", parts=list(kw))
    m.check(same(response(b, window, deformed), pristine_b), "other_component_unaffected", f"second {cls.__name__} from the same parts", parts=list(kw))
    parts = public(kw)
    done = tweak(a, rng)
    m.check(same(response(b, window, deformed), pristine_b), "other_component_unaffected", f"changing {done} of one {cls.__name__}", parts=list(kw))
    m.check(public(kw) == parts, "supplied_parts_unaffected", f"changing {done} of a {cls.__name__} changed the objects it was built from")
    # the supplied parts change
    x = cls(**kw)
    want = response(x, window, deformed)
    for n, v in kw.items():
        for p in v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(p, np.ndarray):
                p += 0.37
            elif hasattr(p, "radius"):
                p.radius *= 1.9
            elif hasattr(p, "angle"):
                p.angle = p.angle * 0.9
            elif hasattr(p, "growth_rate"):
                p.growth_rate *= 1.5
            elif hasattr(p, "height"):
                p.height += 0.3
        if isinstance(v, list):
            v.append(v[0])
        elif isinstance(v, dict) and v:
            v.pop(next(iter(v)))
    m.check(same(response(x, window, deformed), want), "sensor_unaffected_by_supplied_parts", cls.__name__, parts=list(kw))
    # sensors with nothing but defaults stay independent as well
    if scan:
        d1 = cls(barrier_functions=gen.barrier(rng), sensor_peak_function=None, alpha_sensor_gate=np.eye(3)[:, :2])
    else:
        d1 = cls()
    tweak(d1, rng)
    if scan:
        d2 = cls(barrier_functions=gen.barrier(rng), sensor_peak_function=None, alpha_sensor_gate=np.eye(3)[:, :2])
        ok = not np.any(d2.alpha_dot) and not np.any(d2.alpha_gate) and not np.any(d2.offset_mu_sens) and not d2.sensor_peak_deformations
    else:
        d2 = cls()
        ok = np.array_equal(d2.alpha_dot, [-1, -1]) and np.array_equal(d2.alpha_gate, [0, 0]) and d2.offset_mu_sens == 0 and d2.sensor_peak_function is None
    m.check(ok, "other_component_unaffected", f"changing a default {cls.__name__} changed the defaults")
    m.distinct(*before_a)


# ------------------------------------------------------------------------------------------ parts reached through a sensor
def parts_of(s):
    """The numeric settings of the parts of a sensor that are documented to be adjustable in place."""
    for p in s.sensor_peak_function if isinstance(s.sensor_peak_function, list) else [s.sensor_peak_function]:
        if p is not None:
            yield "peak", p
    if getattr(s, "final_rise", None) is not None:
        yield "rise", s.final_rise
    yield "lever arms", s.alpha_dot
    yield "lever arms", s.alpha_gate


def reached(m, rng, cls, par):
    """Adjusting a part in place through the sensor equals building the sensor from adjusted parts."""
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
    window = None
    if rng.random() < 0.6:
        kw, v1, v2 = gen.scan_sensor_parts(rng, rise=rng.random() < 0.7)
        window, cls = (v1, v2), SensorScanSensorGeneric
        if rng.random() < 0.2:
            kw["sensor_peak_function"] = kw["sensor_peak_function"][0]
    else:
        kw, cls = gen.generic_params(rng, with_peaks=True), SensorGeneric
    s, twin_kw = cls(**copy.deepcopy(kw)), copy.deepcopy(kw)
    if rng.random() < 0.5:
        response(s, window, False)
    if rng.random() < 0.3:
        s = copy.deepcopy(s)
    src = {"alpha_dot": twin_kw["alpha_dot"], "alpha_gate": twin_kw["alpha_gate"], "final_rise": twin_kw.get("final_rise"),
           "sensor_peak_function": twin_kw["sensor_peak_function"]}
    twin = types.SimpleNamespace(**src)
    done = []
    for (name, a), (_, b) in zip(parts_of(s), parts_of(twin), strict=True):
        if rng.random() < 0.4:
            continue
        f = F(gen.u(rng, 1.1, 1.6))
        done.append(name)
        if name == "lever arms":
            if not isinstance(a, np.ndarray) or a.dtype.kind != "f":
                continue
            a *= f
            b *= f
            continue
        which = [n for n in ("mu0", "height", "offset", "gamma", "gamma_l", "gamma_r", "asymptote_left", "asymptote_right", "growth_rate") if isinstance(getattr(a, n, None), (int, float))]
        n = which[int(rng.integers(len(which)))]
        for x in (a, b):
            setattr(x, n, getattr(x, n) * f + (0.01 if n == "mu0" else 0))
        done[-1] += "." + n
    m.check(same(response(s, window, False), response(cls(**twin_kw), window, False)), "in_place_same_effect",
            f"adjusting {done} through a {cls.__name__}", done=done)
