"""P09: measurement stages are composed in the documented order."""
import copy

import numpy as np

from vmon import gen, probes, ref

PID = "P09"
TITLE = "Measurement stages are composed in the documented order"
RULE = ("random stacks of user-defined probe components (affine distortions modifying in place or returning new arrays, every "
        "sensor kind) and random requests; the recorded call trace is judged online against the documented pipeline; "
        "non-trivial = distinct stack and request")
ASSUMPTIONS = ["components are identified by the data and names recorded by probes implementing the public interfaces"]
CASES = {"quick": 3000, "thorough": 150000}
REQUIRED = {"ideal_stage": 1000, "occupation_stage": 1000, "potential_stage": 1000, "potential_distortions": 1000,
            "response_stage": 1000, "response_distortions": 1000, "returned_signal": 1000, "returned_occupations": 1000}


def same(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-10, atol=1e-12)


def volts(a, b):
    if a is None or b is None:
        return a is None and b is None
    return np.array_equal(np.asarray(a, float), np.asarray(b, float))


def affine(rng):
    return dict(a=float(gen.u(rng, 0.5, 1.5)), b=float(gen.u(rng, -0.3, 0.3)))


def probe_stack(rng):
    occ = [probes.ProbeOcc(f"o{k}", c=int(rng.integers(0, 3)), inplace=rng.random() < 0.5, sampled=rng.random() < 0.3,
                           seed=int(rng.integers(1 << 30)), **affine(rng)) for k in range(int(rng.integers(0, 5)))]
    pot = [probes.ProbePot(f"p{k}", **affine(rng)) for k in range(int(rng.integers(0, 5)))]
    resp = [probes.ProbeResp(f"r{k}", **affine(rng)) for k in range(int(rng.integers(0, 5)))]
    for lst in (occ, pot, resp):
        if lst and rng.random() < 0.15:      # the same object at two places of the list: applied twice
            d = lst[int(rng.integers(len(lst)))]
            if not getattr(d, "sampled", False):
                lst.insert(int(rng.integers(len(lst) + 1)), d)
    return occ, pot, resp


def some(rng, lst):
    """None or [] for an empty list."""
    if not lst:
        return None if rng.random() < 0.5 else []
    return lst


def judge_distortions(m, ev, kind, objs, arrays, g1, g2, name, **w):
    """Every distortion exactly once per array, in list order for each array; returns the expected outputs."""
    seen = [e for e in ev if e["kind"] == kind]
    expected = []
    outs = []
    for arr in arrays:
        for d in objs:
            expected.append((d.name, arr))
            arr = d.a * arr + d.b
        outs.append(arr)
    left = list(seen)
    ok = len(seen) == len(expected)
    for nm, arr in expected:
        hit = next((k for k, e in enumerate(left) if e["name"] == nm and same(e["x"], arr)), None)
        if hit is None:
            ok = False
            break
        left.pop(hit)
    m.check(ok, name, f"calls {[e['name'] for e in seen]}, expected {[n for n, _ in expected]} each applied to its predecessor's output", **w)
    m.check(all(volts(e["g1"], g1) and volts(e["g2"], g2) for e in seen), name + "_ranges",
            f"ranges passed {[(e['g1'], e['g2']) for e in seen][:2]}, expected {g1}, {g2}", **w)
    return outs


def run_case(m, rng, i):
    from simcats import Simulation
    occ, pot, resp = probe_stack(rng)
    kind = str(rng.choice(["plain", "generic", "scan"]))
    flat = gen.flat(rng)
    csd = probes.ProbeCSD(k=tuple(gen.u(rng, 0.5, 5, 4)), flat=flat)
    s1 = s2 = None
    if kind == "plain":
        sensor = probes.ProbeSensor(alpha=gen.u(rng, -1, 1, 2))
    elif kind == "generic":
        sensor = probes.ProbeGeneric(**gen.generic_params(rng))
    else:
        kw, sw1, sw2 = gen.scan_sensor_parts(rng, rise=False)
        sensor = probes.ProbeScan(**kw)
        sensor.dup = rng.random() < 0.2
        if rng.random() < 0.8:
            s1, s2 = float(gen.u(rng, *sw1)), float(gen.u(rng, *sw2))
    g1, g2 = gen.u(rng, -0.2, 0.1, 2), gen.u(rng, -0.2, 0.1, 2)
    two = rng.random() < 0.5
    res = gen.resolution(rng, two, (2, 14), (2, 30))
    if not two and rng.random() < 0.5:
        (g1 if rng.random() < 0.5 else g2)[:] = -0.05
    req = dict(sweep_range_g1=g1, sweep_range_g2=g2, resolution=gen.res_format(rng, res))
    if kind == "scan":
        req.update(volt_sensor_g1=s1, volt_sensor_g2=s2)
    sim = Simulation(volt_limits_g1=None, volt_limits_g2=None, ideal_csd_config=csd, sensor=sensor,
                     occupation_distortions=some(rng, occ), sensor_potential_distortions=some(rng, pot),
                     sensor_response_distortions=some(rng, resp))
    if rng.random() < 0.3:     # reconfigured before measuring: order follows the new lists
        rng.shuffle(occ)
        rng.shuffle(pot)
        rng.shuffle(resp)
        sim.occupation_distortions, sim.sensor_potential_distortions, sim.sensor_response_distortions = \
            some(rng, occ), some(rng, pot), some(rng, resp)
    w = dict(sensor_kind=kind, ideal_data=flat or "varied", request=req, stack=[d.name for d in occ + pot + resp])
    probes.take()
    for rep in range(2):
        sig, o_out, l_out, _ = sim.measure(**req)
        ev = probes.take()
        m.event("calls", len(ev))
        judge_measure(m, ev, csd, sensor, occ, pot, resp, req, (sig, o_out, l_out), s1, s2, res, **w)
    m.distinct(sig, o_out)
    m.sample(**w)


def judge_measure(m, ev, csd, sensor, occ, pot, resp, req, out, s1, s2, res, **w):
    sig, o_out, l_out = out
    g1, g2 = req["sweep_range_g1"], req["sweep_range_g2"]
    v = ref.grid(g1, g2, res if np.ndim(res) else [res])
    o, l = csd.values(v[..., 0], v[..., 1])
    c = [e for e in ev if e["kind"] == "csd"]
    m.check(len(c) >= 1 and volts(c[0]["g1"], g1) and volts(c[0]["g2"], g2) and probes.shape_of(c[0]["res"]) == o.shape[:-1], "ideal_stage",
            f"ideal data requested {len(c)} times, first for {[(e['g1'], e['g2'], e['res']) for e in c[:1]]}", **w)
    # occupation stage
    seen = [e for e in ev if e["kind"] == "occ" and not e["freeze"]]
    ok = [e["name"] for e in seen] == [d.name for d in occ]
    m.check(ok, "occupation_stage", f"calls {[e['name'] for e in seen]} expected {[d.name for d in occ]}", **w)
    if ok:
        for e, d in zip(seen, occ):
            m.check(same(e["occ"], o) and np.array_equal(e["lab"], l), "occupation_stage", f"{d.name} did not receive its predecessor's output", **w)
            m.check(volts(e["g1"], g1) and volts(e["g2"], g2) and e["has_gen"], "occupation_stage",
                    f"{d.name} received ranges {e['g1']}, {e['g2']}", **w)
            o, l = d.apply(o, l, e["last"])
    m.check(same(o_out, o), "returned_occupations", "returned occupations are not the output of the last occupation distortion", **w)
    m.check(np.array_equal(l_out, l), "returned_labels", "returned labels are not the output of the last occupation distortion", **w)
    # sensor potential
    p = [e for e in ev if e["kind"] == "potential"]
    m.check(len(p) >= 1 and all(same(e["occ"], o) and volts(e["g1"], g1) and volts(e["g2"], g2) for e in p), "potential_stage",
            f"sensor potential called {len(p)} times with unexpected occupations or ranges", **w)
    if isinstance(sensor, probes.ProbeScan):
        m.check(all(volts(e["s1"], s1) and volts(e["s2"], s2) for e in p), "potential_stage",
                f"sensor voltages {[(e['s1'], e['s2']) for e in p]} expected {s1}, {s2}", **w)
    twin = copy.deepcopy(sensor)
    args = (o, g1, g2) if not isinstance(sensor, probes.ProbeScan) else (o, g1, g2, s1, s2)
    mu = twin.sensor_potential(*args)
    probes.take()
    multi = mu.ndim == o.ndim
    outs = judge_distortions(m, ev, "pot", pot, list(mu) if multi else [mu], g1, g2, "potential_distortions", **w)
    mu = np.array(outs) if multi else outs[0]
    r = [e for e in ev if e["kind"] == "response"]
    m.check(len(r) >= 1 and all(same(e["x"], mu) for e in r), "response_stage", "sensor response did not receive the distorted potential", **w)
    resp_in = twin.sensor_response(mu)
    probes.take()
    outs = judge_distortions(m, ev, "resp", resp, [resp_in], g1, g2, "response_distortions", **w)
    m.check(same(sig, outs[0]), "returned_signal", "returned signal is not the output of the last response distortion", **w)
    # order of the stages
    order = {"csd": 0, "occ": 1, "potential": 2, "pot": 3, "response": 4, "resp": 5}
    main = [order[e["kind"]] for e in ev if e["kind"] in order and not (e["kind"] == "occ" and e["freeze"])]
    m.check(main == sorted(main), "stage_order", f"{[e['kind'] for e in ev]}", **w)
