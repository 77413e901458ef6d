"""P33: the printed form of a deterministic component rebuilds it."""
import copy

import numpy as np

from vmon import gen

PID = "P33"
TITLE = "The printed form of a deterministic component rebuilds it"
RULE = ("random ideal diagrams, peaks, rises, barriers, deformations, sensors and simulations without random parts; the printed form is "
        "evaluated in a namespace with the public classes and array/np; printed form and results of the rebuilt object are compared; "
        "non-trivial = distinct printed form")
ASSUMPTIONS = ["array entries have at most seven decimals, or at most seven significant digits next to tiny entries (numpy prints eight decimals, in scientific notation next to tiny entries)",
               "components with random generators are excluded (a generator has no evaluable form)"]
CASES = {"quick": 900, "thorough": 25000}
REQUIRED = {"evaluable": 800, "same_printed_form": 800, "same_results": 800, "same_after_use": 200}


def namespace():
    import simcats
    import simcats.distortions
    import simcats.ideal_csd
    import simcats.sensor
    import simcats.sensor.barrier_function
    import simcats.sensor.deformation
    ns = {"np": np, "array": np.array, "inf": np.inf, "nan": np.nan}
    for mod in (simcats, simcats.ideal_csd, simcats.sensor, simcats.sensor.barrier_function, simcats.sensor.deformation, simcats.distortions):
        ns.update({k: v for k, v in vars(mod).items() if isinstance(v, type)})
    return ns


def rounded(o):
    """Round arrays to the seven decimals that numpy prints in every notation."""
    if isinstance(o, np.ndarray):
        return np.round(o, 7)
    if isinstance(o, (list, tuple)):
        return type(o)(rounded(x) for x in o)
    if isinstance(o, dict):
        return {k: rounded(v) for k, v in o.items()}
    return o


def peak(rng):
    return gen.peaks(rng, -0.1, 0.02, 1)[0]


def rise(rng):
    from simcats.sensor import SensorRiseGLF
    return SensorRiseGLF(**gen.rise_params(rng))


def barrier(rng):
    return gen.barrier(rng)


def multi(rng):
    from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
    n = int(rng.integers(1, 4))
    off = np.sort(gen.u(rng, -0.2, 0.2, n))
    ps = []
    for k in range(n):
        b = gen.barrier_params(rng, float(off[k]))
        ps.append((b["asymptote_left"], b["asymptote_right"], b["growth_rate"], b["asymmetry"], b["shape_factor"], b["denominator_offset"], b["offset"]))
    flat = [float(x) for p in ps for x in p]
    return BarrierFunctionMultiGLF(float(off[0] - 0.1), float(off[-1] + 0.1), *flat)


def deformation(rng):
    from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear
    if rng.random() < 0.5:
        return SensorPeakDeformationCircle(radius=float(rng.choice([-1, 1]) * gen.u(rng, 1, 20)))
    return SensorPeakDeformationLinear(angle=float(gen.u(rng, -0.5, 0.5)))


def ideal(rng):
    kw = gen.ideal_kwargs(rng, n=int(rng.integers(2, 4)), lut=True if rng.random() < 0.8 else None)
    kw["tct_params"] = rounded(kw["tct_params"])
    return gen.ideal(kw)


def mixed(rng, v):
    """Some of the entries tiny (numpy prints nine significant digits then)."""
    if rng.random() < 0.7:
        return v
    v = np.array([float(f"{x * (10.0 ** -rng.integers(4, 9) if k == 0 or rng.random() < 0.5 else 1):.6e}") for k, x in enumerate(rng.permutation(np.ravel(v)))]).reshape(np.shape(v))
    return v


def generic(rng):
    from simcats.sensor import SensorGeneric
    return SensorGeneric(**{k: mixed(rng, rounded(v)) if isinstance(v, np.ndarray) else v for k, v in gen.generic_params(rng).items()})


def scan(rng, deform=None):
    from simcats.sensor import SensorScanSensorGeneric
    kw, v1, v2 = gen.scan_sensor_parts(rng, rise=rng.random() < 0.5, n_peaks=int(rng.integers(1, 4)))
    for k in ("alpha_dot", "alpha_gate", "alpha_sensor_gate", "offset_mu_sens"):
        kw[k] = mixed(rng, rounded(kw[k]))
    if deform if deform is not None else rng.random() < 0.4:
        kw["sensor_peak_deformations"] = {int(k): deformation(rng) for k in range(len(kw["sensor_peak_function"])) if rng.random() < 0.7}
    return SensorScanSensorGeneric(**kw), v1, v2


def use(o, rng, extra=None):
    """Results of an object for inputs that are a function of `rng`."""
    n = type(o).__name__
    with np.errstate(all="ignore"):
        if n == "Simulation":
            out = list(o.measure(**copy.deepcopy(extra["csd"]))[:3]) if extra["csd"] else []
            if extra.get("scan"):
                out += list(o.measure_sensor_scan(**copy.deepcopy(extra["scan"]))[:3])
            return out
        if n == "IdealCSDGeometric":
            return list(o.get_csd_data(**copy.deepcopy(extra)))
        if n == "SensorGeneric":
            mu = o.sensor_potential(rng.random((9, 2)) * 3, rng.normal(size=2) * 0.1, rng.normal(size=2) * 0.1)
            return [mu, o.sensor_response(mu)]
        if n == "SensorScanSensorGeneric":
            mu = o.sensor_potential(np.zeros((25, 2)), -0.13, -0.13, extra[0], extra[1])
            return [mu, o.sensor_response(mu)]
        x = np.linspace(-0.3, 0.3, 101)
        if "Peak" in n and "Deformation" not in n or "Rise" in n:
            return [o.sensor_function(x)] if "Peak" in n else [o.sensor_function(x, offset=0.01)]
        if "Barrier" in n:
            return [o.get_value(x), o.pinch_off, o.fully_conductive]
        # deformations are used through their sensor
        return [vars(o).get("radius"), vars(o).get("angle"), repr(getattr(o, "radius", None)), repr(getattr(o, "angle", None))]


def simulation(rng):
    """Simulation and requests."""
    from simcats import Simulation
    from vmon.sims import Setup
    s = Setup(rng, res=(8, 20), rise=False, n_tct=int(rng.integers(2, 4)))
    kw, _ = s.request(n=15)
    sreq = s.scan_request(hi=15) if s.kind == "scan" else None
    sensor = s.sensor
    for k in ("alpha_dot", "alpha_gate") + (("alpha_sensor_gate", "offset_mu_sens") if s.kind == "scan" else ()):
        setattr(sensor, k, rounded(getattr(sensor, k)))
    lim = [None] * 4
    for k in range(4):
        f = rng.integers(3)
        if f == 1:
            lim[k] = np.array([-9.0, 9.5])
        elif f == 2:
            lim[k] = [-9.0, 9.5]
    ik = dict(s.ikw)
    ik["tct_params"] = rounded(ik["tct_params"])
    sim = Simulation(*lim, ideal_csd_config=gen.ideal(ik), sensor=sensor)
    return sim, dict(csd=kw, scan=sreq)


KINDS = (peak, rise, barrier, multi, deformation, ideal, generic, scan, simulation)


def same(a, b):
    if len(a) != len(b):
        return False
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f") for x, y in zip(a, b))


def run_case(m, rng, i):
    f = KINDS[i % len(KINDS)]
    o = f(rng)
    extra = None
    if f is scan:
        o, v1, v2 = o
        extra = (v1, v2)
    elif f is simulation:
        o, extra = o
    elif f is ideal:
        r = gen.csd_ref(dict(tct_params=o.tct_params, rotation=o.rotation, lut_entries=o.lut_entries, cdf_type=o.cdf_type,
                             cdf_gamma_factor=o.cdf_gamma_factor))
        v1, v2, _ = gen.line(rng, r)
        extra = dict(volt_limits_g1=v1, volt_limits_g2=v2, resolution=20)
    text = repr(o)
    w = dict(component=f.__name__, printed=text[:800])
    ns = namespace()
    try:
        p = eval(text, dict(ns))
    except Exception as e:  # noqa
        m.check(False, "evaluable", f"{type(e).__name__}: {e}", **w)
        return
    m.check(type(p) is type(o), "evaluable", f"{type(p)}", **w)
    m.check(repr(p) == text, "same_printed_form", f"{repr(p)[:300]}", **w)
    m.check(str(o) == text or type(o).__str__ is not object.__str__, "same_printed_form", "str and repr differ", **w)
    seed = int(rng.integers(2 ** 31))
    a, b = (use(x, np.random.default_rng(seed), extra) for x in (o, p))
    m.check(same(a, b), "same_results", "results of the rebuilt object differ", **w)
    # the printed form is a function of the configuration, not of the use
    m.check(repr(o) == text, "same_after_use", f"printed form changes by use: {repr(o)[:300]}", **w)
    # and it is sensitive: another component prints differently
    q = f(np.random.default_rng(seed))
    q = q[0] if isinstance(q, tuple) else q
    m.check(repr(q) != text, "distinguishes", "two different components have the same printed form", **w)
    m.event(f.__name__)
    m.distinct(text)
    m.sample(**w)
