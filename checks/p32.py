"""P32: invalid component assignments are refused and change nothing."""
import copy

import numpy as np

from vmon import gen
from vmon.sims import Setup
from vmon.snap import snap

PID = "P32"
TITLE = "Invalid component assignments are refused and change nothing"
RULE = ("random sequences of valid and invalid assignments to every setting of simulations and sensors (constructor and setters); a model "
        "of the settings is kept and compared after every step, scans are compared to a freshly built twin at the end; "
        "non-trivial = distinct sequence")
ASSUMPTIONS = ["single distortions instead of lists and duck-typed objects without the interface are not part of the domain",
               "final_rise, barrier functions and deformations are checked as far as their documented types tell"]
CASES = {"quick": 1500, "thorough": 50000}
REQUIRED = {"invalid_refused": 3000, "previous_kept": 3000, "valid_accepted": 3000, "reads_back": 3000, "others_unchanged": 6000,
            "constructor_refuses": 300, "twin_equal": 300, "normalised": 500}


class NoInterface:
    """Implements nothing."""
    mu0 = 0.0

    def noise_function(self, *a, **k):
        return a[0]

    def sensor_function(self, x):
        return x


def junk(rng):
    return [5, 1.5, "text", NoInterface(), object(), np.zeros(3), {"a": 1}, int, b"x", True][rng.integers(10)]


def lst(rng, good, bad):
    """List of good items with one bad item at a random position."""
    items = list(good)
    items.insert(int(rng.integers(len(items) + 1)), bad)
    return items


# ------------------------------------------------------------------------------------------------ settings
def sim_settings(rng):
    """name -> (valid value, expected read back) or an invalid value."""
    def limits():
        a, b = sorted(rng.uniform(-9, 9, 2))
        v = [None, np.array([a, b]), [a, b]][rng.integers(3)]
        return v, v

    def bad_limits():
        return [5, 1.0, (1.0, 2.0), np.zeros(1), np.zeros(3), [1.0], [1.0, 2.0, 3.0], "ab", {}, np.zeros((2, 2)), np.zeros(0), [], {1, 2},
                np.zeros((2, 3)), np.array(1.0), [[1.0, 2.0], [3.0, 4.0]]][rng.integers(16)]

    def dist(f, other):
        def valid():
            v = f(rng, 0.03, int(rng.integers(0, 3)))
            if rng.random() < 0.15:
                v = None
            return v, v

        def bad():
            k = rng.integers(3)
            if k == 0:
                return lst(rng, f(rng, 0.03, int(rng.integers(0, 3))), junk(rng))
            return lst(rng, f(rng, 0.03, int(rng.integers(0, 3))), other(rng, 0.03, 1)[0])
        return valid, bad

    def ideal():
        if rng.random() < 0.2:
            return None, None
        v = gen.ideal(gen.ideal_kwargs(rng, n=2, lut=True))
        return v, v

    def sensor():
        if rng.random() < 0.1:
            from simcats.sensor import SensorGeneric
            return None, SensorGeneric()
        v = [gen.generic(rng), gen.scan_sensor(rng, rise=False)[0]][rng.integers(2)]
        return v, v

    def bad_obj():
        k = rng.integers(4)
        if k == 0:
            return gen.ideal_kwargs(rng, n=2)
        return junk(rng)

    def bad_sensor():
        k = rng.integers(5)
        return gen.ideal(gen.ideal_kwargs(rng, n=2)) if k == 0 else gen.peaks(rng, 0, 1, 1)[0] if k == 1 else junk(rng)

    def bad_ideal():
        return gen.generic(rng) if rng.random() < 0.3 else bad_obj()
    o, p, r = gen.occ_distortions, gen.pot_distortions, gen.resp_distortions
    return {"volt_limits_g1": (limits, bad_limits), "volt_limits_g2": (limits, bad_limits), "volt_limits_sensor_g1": (limits, bad_limits),
            "volt_limits_sensor_g2": (limits, bad_limits), "ideal_csd_config": (ideal, bad_ideal), "sensor": (sensor, bad_sensor),
            "occupation_distortions": dist(o, p if rng.random() < 0.5 else r),
            "sensor_potential_distortions": dist(p, o if rng.random() < 0.5 else r),
            "sensor_response_distortions": dist(r, o if rng.random() < 0.5 else p)}


def peak_setting(rng):
    def valid():
        k = rng.integers(4)
        if k == 0:
            v = gen.peaks(rng, 0.0, 0.01, 1)[0]
            return v, [v]
        if k == 1:
            return None, None
        v = gen.peaks(rng, 0.0, 0.01, int(rng.integers(1, 4)))
        return v, v

    def bad():
        from simcats.sensor import SensorGeneric
        k = rng.integers(4)
        if k == 0:
            return lst(rng, gen.peaks(rng, 0.0, 0.01, int(rng.integers(0, 3))), junk(rng))
        if k == 1:
            return SensorGeneric()
        if k == 2:
            return tuple(gen.peaks(rng, 0.0, 0.01, 2))
        return junk(rng)
    return valid, bad


def generic_settings(rng):
    def arr2():
        v = rng.normal(size=2)
        if rng.random() < 0.2:
            v = np.array([0, -1])
        return v, v

    def bad_arr():
        return [None, [1.0, 2.0], (1.0, 2.0), 1.0, np.zeros(3), np.zeros(1), np.zeros((3, 2)), "ab", np.zeros(0), NoInterface(),
                np.zeros((2, 3)), np.zeros((2, 2)), np.zeros((2, 2, 2)), np.array(1.0)][rng.integers(14)]

    def off():
        v = [float(rng.normal()), int(rng.integers(-5, 5)), np.float64(rng.normal())][rng.integers(3)]
        return v, v

    def bad_off():
        return [None, "1", [1.0], np.array([1.0]), np.zeros(3), (1.0,), {}, 1j, NoInterface()][rng.integers(9)]
    return {"sensor_peak_function": peak_setting(rng), "alpha_dot": (arr2, bad_arr), "alpha_gate": (arr2, bad_arr), "offset_mu_sens": (off, bad_off)}


def scan_settings(rng):
    def arr(none=True, tile=True):
        def valid():
            k = rng.integers(4)
            if k == 0 and none:
                return None, np.zeros((3, 2))
            if k == 1 and tile:
                v = rng.normal(size=2)
                return v, np.stack([v, v, v])
            v = rng.normal(size=(3, 2))
            return v, v
        return valid

    def bad_arr(none):
        def bad():
            c = [[1.0, 2.0], 1.0, np.zeros(3), np.zeros((2, 3)), np.zeros((2, 2)), np.zeros((3, 3)), np.zeros(6), "ab", np.zeros((1, 2)), {}, [[1, 2]] * 3, np.zeros((1, 3, 2)), np.zeros((2, 3, 2)), np.zeros((2, 1)), np.zeros((4, 2)), np.zeros(3),
                 np.zeros((6, 1)), np.zeros(())]
            if not none:
                c += [None, np.zeros(2)]
            return c[rng.integers(len(c))]
        return bad

    def off():
        k = rng.integers(3)
        if k == 0:
            v = float(rng.normal())
            return v, np.full(3, v)
        if k == 1:
            v = int(rng.integers(-5, 5))
            return v, np.full(3, v)
        v = rng.normal(size=3)
        return v, v

    def bad_off():
        return [None, "1", [1.0, 2.0, 3.0], np.zeros(2), np.zeros(4), np.zeros((3, 1)), (1.0, 2.0, 3.0), {}, NoInterface(), np.zeros((1, 3)),
                np.zeros((2, 3)), np.zeros((3, 3)), np.zeros(0), np.zeros((3, 2)), np.zeros(())][rng.integers(15)]

    def barriers():
        k = rng.integers(3)
        a, b = gen.barrier(rng), gen.barrier(rng)
        return [(a, [a, a]), ((a, b), [a, b]), ([a, b], [a, b])][k]

    def bad_barriers():
        a, b = gen.barrier(rng), gen.barrier(rng)
        return [None, (a,), (a, b, a), [a], (a, junk(rng)), (junk(rng), b), gen.peaks(rng, 0, 1, 1)[0], junk(rng), (), {0: a, 1: b}][rng.integers(10)]

    def rise():
        from simcats.sensor import SensorRiseGLF
        v = None if rng.random() < 0.3 else SensorRiseGLF(**gen.rise_params(rng))
        return v, v

    def bad_rise():
        return [junk(rng), gen.barrier(rng), gen.peaks(rng, 0, 1, 1)[0], [rise()[0]]][rng.integers(4)]
    return {"sensor_peak_function": peak_setting(rng), "alpha_dot": (arr(), bad_arr(True)), "alpha_gate": (arr(), bad_arr(True)),
            "alpha_sensor_gate": (arr(False, False), bad_arr(False)), "offset_mu_sens": (off, bad_off), "barrier_functions": (barriers, bad_barriers),
            "final_rise": (rise, bad_rise)}


# ------------------------------------------------------------------------------------------------ workload
def norm(v):
    """Value of a setting, independent of its container and number type."""
    if v is None:
        return None
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(x, (int, float, np.number)) for x in v):
            return ("values",) + tuple(float(x) for x in v)
        return ("list",) + tuple(norm(x) for x in v)
    if isinstance(v, np.ndarray):
        return norm(v.astype(float).tolist())
    if isinstance(v, (bool, int, float, np.number)):
        return float(v)
    return snap(v)


def read(o, settings):
    return {k: norm(getattr(o, k)) for k in settings}


def run_case(m, rng, i):
    from simcats import Simulation
    from simcats.sensor import SensorGeneric, SensorScanSensorGeneric
    kind = ("simulation", "generic", "scan")[i % 3]
    cls = dict(simulation=Simulation, generic=SensorGeneric, scan=SensorScanSensorGeneric)[kind]
    settings = dict(simulation=sim_settings, generic=generic_settings, scan=scan_settings)[kind](rng)
    names = list(settings)
    args, model = {}, {}
    for k in names:
        v, e = settings[k][0]()
        args[k], model[k] = v, norm(e)
    w = dict(object=cls.__name__)
    if kind != "scan" and rng.random() < 0.5:
        # only a part of the settings
        for k in names:
            if rng.random() < 0.5:
                args.pop(k)
    args_snap = snap(args)
    obj = cls(**args)
    m.check(snap(args) == args_snap, "arguments_unmodified", "constructor modified its arguments", **w)
    first = read(obj, names)
    for k in names:
        if k in args:
            m.check(first[k] == model[k], "reads_back", f"{k}: {first[k]!r:.150} instead of {model[k]!r:.150}", **w)
        model[k] = first[k]
    # constructor with one invalid setting
    k = names[rng.integers(len(names))]
    bad = settings[k][1]()
    try:
        cls(**{**args, k: bad})
        m.check(False, "constructor_refuses", f"{k}={bad!r:.120} accepted", **w)
    except ValueError:
        m.check(True, "constructor_refuses")
    except Exception as e:  # noqa
        m.check(False, "constructor_refuses", f"{k}={bad!r:.120}: {type(e).__name__}: {e}", **w)
    m.check(read(obj, names) == model, "others_unchanged", "failed construction changes another object", **w)
    last = dict(args)
    log = []
    for step in range(int(rng.integers(4, 12))):
        k = names[rng.integers(len(names))]
        if rng.random() < 0.5:
            bad = settings[k][1]()
            bad_s = repr(bad)[:120]
            log.append(("bad", k, bad_s))
            try:
                setattr(obj, k, bad)
                m.check(False, "invalid_refused", f"{k}={bad_s} accepted", log=log, **w)
            except ValueError:
                m.check(True, "invalid_refused")
            except Exception as e:  # noqa
                m.check(False, "invalid_refused", f"{k}={bad_s}: {type(e).__name__} instead of ValueError: {e}", log=log, **w)
            m.check(norm(getattr(obj, k)) == model[k], "previous_kept", f"{k} changed by a refused assignment", log=log, **w)
        else:
            v, e = settings[k][0]()
            log.append(("ok", k, repr(v)[:60]))
            before = snap(v)
            e = norm(e)
            try:
                setattr(obj, k, v)
                m.check(True, "valid_accepted")
            except Exception as ex:  # noqa
                m.check(False, "valid_accepted", f"{k}={v!r:.120}: {type(ex).__name__}: {ex}", log=log, **w)
                return
            m.check(snap(v) == before, "arguments_unmodified", f"assigning {k} modified the value", log=log, **w)
            got = norm(getattr(obj, k))
            m.check(got == e, "reads_back", f"{k}: {got!r:.150} instead of {e!r:.150}", log=log, **w)
            if norm(v) != e:
                m.check(got == e, "normalised")
            model[k] = got
            last[k] = v
        m.check(read(obj, names) == model, "others_unchanged", f"assigning {k} changed another setting", log=log, **w)
    # the object behaves like one built from the last valid settings
    twin = cls(**last)
    m.check(read(twin, names) == model, "twin_equal", "differs from an object built with the same settings", log=log, **w)
    if kind == "generic":
        occ = rng.random((6, 2)) * 3
        v1, v2 = rng.normal(size=2), rng.normal(size=2)
        a, b = (x.sensor_response(x.sensor_potential(occ, v1, v2)) for x in (obj, twin))
        m.check(np.array_equal(a, b), "twin_equal", "sensor signals differ", log=log, **w)
    elif kind == "scan":
        v = [np.sort(rng.normal(size=2)) * 0.05 for _ in range(4)]
        occ = rng.random((6, 2)) * 3
        def potential(x):
            with np.errstate(all="ignore"):
                return x.sensor_potential(occ, v[0], v[1], float(v[2][0]), float(v[3][0]))
        m.check(np.array_equal(potential(obj), potential(twin)), "twin_equal", "sensor potentials differ", log=log, **w)
    m.distinct(kind, repr(log))
    m.sample(log=log[:4], **w)
