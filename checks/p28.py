"""P28: default configurations simulate plausible scans over their limits."""
import copy

import numpy as np

from vmon import gen, ref
from vmon.core import Skip
from vmon.snap import reseed, snap

PID = "P28"
TITLE = "Default configurations simulate plausible scans over their limits"
RULE = ("1D and 2D scans of every default configuration at random windows, directions and resolutions within its limits (also touching "
        "them), with and without distortions, and sensor scans where supported; non-trivial = distinct request")
ASSUMPTIONS = ["2D windows of at least 8 mV width with at most 60 pixels per axis and pixel aspect ratio up to 2.5 ; pixels are small enough that none reaches beyond the last defined transition (dot jumps longer than the window are slow, not wrong)"]
CASES = {"quick": 700, "thorough": 12000}
REQUIRED = {"csd_totals_monotonic": 300, "csd_finite": 300, "sensor_scan_finite": 60, "unaltered": 500, "unaltered_by_sampler": 30, "all_transitions_visible": 4,
            "sensor_regimes": 2, "sensor_reacts_to_electrons": 4, "transition_lines_seen": 100, "reference_totals": 100}


def sub(rng, lim, lo, hi, snapto=0.25):
    w = float(np.exp(gen.u(rng, np.log(lo), np.log(hi))))
    w = min(w, lim[1] - lim[0])
    a = float(gen.u(rng, lim[0], lim[1] - w))
    r = rng.random()
    if r < snapto / 2:
        return np.array([lim[0], lim[0] + w])
    if r < snapto:
        return np.array([lim[1] - w, lim[1]])
    return np.array([a, min(a + w, lim[1])])


def measure_csd(m, rng, name, cfg, sim, scan_sensor):
    l1, l2 = cfg["volt_limits_g1"], cfg["volt_limits_g2"]
    ic = cfg["ideal_csd_config"]
    r = ref.CSDRef(ic.tct_params, ic.rotation, ic.lut_entries, ic.cdf_type, ic.cdf_gamma_factor)
    full = rng.random() < 0.12
    two_d = rng.random() < 0.6
    for _ in range(50):
        v1, v2 = (l1.copy(), l2.copy()) if full else (sub(rng, l1, 0.008, 0.12), sub(rng, l2, 0.008, 0.12))
        d1, d2 = v1[1] - v1[0], v2[1] - v2[0]
        if not two_d:
            break
        res = gen.resolution2(rng, v1, v2, 10, 60)
        room = -r.margins(ref.grid(v1, v2, [40, 40]))[-1].max()
        if max(d1, d2) <= 2.5 * min(d1, d2) and max(res) <= 100 and room > 1.2 * np.hypot(d1 / (res[0] - 1), d2 / (res[1] - 1)):
            break
    else:
        raise Skip()
    asc = [v1.copy(), v2.copy()]
    kind = "2d"
    if two_d:
        v1, v2 = gen.flip(rng, v1), gen.flip(rng, v2)
        res = np.array(res)
    else:
        res = int(gen.n1(rng, 10, 200))
        kind = str(rng.choice(["g1", "g2", "diag", "anti"]))
        if kind == "g1":
            v2[:] = gen.u(rng, *v2)
        elif kind == "g2":
            v1[:] = gen.u(rng, *v1)
        elif kind == "anti":
            v2 = v2[::-1].copy()
        if rng.random() < 0.5:
            v1, v2 = v1[::-1].copy(), v2[::-1].copy()
        if sim.occupation_distortions:
            # dot jumps of many pixels are slow (not wrong), most of all if both gates jump in the same scan
            step = min(abs(v[1] - v[0]) for v in (v1, v2) if v[1] != v[0]) / max(res - 1, 1)
            jump = max([d.lam for d in sim.occupation_distortions if hasattr(d, "lam")], default=0)
            if step < jump / 15:
                res = max(10, int(res * step / (jump / 15)))
    kw = dict(sweep_range_g1=v1, sweep_range_g2=v2, resolution=gen.res_format(rng, res))
    if scan_sensor and rng.random() < 0.8:
        kw.update(volt_sensor_g1=float(gen.u(rng, *cfg["volt_limits_sensor_g1"])),
                  volt_sensor_g2=float(gen.u(rng, *cfg["volt_limits_sensor_g2"])))
    w = dict(config=name, request=copy.deepcopy(kw), sweep=kind)
    csd, occ, lead, meta = sim.measure(**kw)
    shape = (res[1], res[0]) if two_d else (res,)
    m.check(csd.shape == shape and occ.shape == shape + (2,) and lead.shape == shape, "csd_shapes",
            f"{csd.shape} {occ.shape} {lead.shape} instead of {shape}", **w)
    m.check(np.isfinite(csd).all() and np.isfinite(occ).all() and np.isfinite(lead).all(), "csd_finite",
            "scan with undefined values", **w)
    m.check(occ.min() > -0.5 and occ.max() < len(cfg["ideal_csd_config"].tct_params) + 0.5, "occupations_plausible",
            f"occupations between {occ.min()} and {occ.max()}", **w)
    # ideal data in direction of increasing voltages
    if kind != "anti":
        io, il = cfg["ideal_csd_config"].get_csd_data(v1, v2, kw["resolution"])
        tot = io.sum(-1)
        if two_d:
            tot = tot[::(1 if v2[1] > v2[0] else -1), ::(1 if v1[1] > v1[0] else -1)]
            ok = np.diff(tot, axis=0).min() >= -1e-9 and np.diff(tot, axis=1).min() >= -1e-9
        else:
            tot = tot if v1[1] + v2[1] > v1[0] + v2[0] else tot[::-1]
            ok = np.diff(tot).min() >= -1e-9
        m.check(ok, "csd_totals_monotonic", "the number of electrons decreases with increasing voltage", **w)
        n = len(np.unique(np.round(tot[np.abs(tot - np.round(tot)) < 1e-6])))
        if n > 1:
            m.check((np.asarray(il) > 0).any() or not two_d or min(shape) < 12, "transition_lines_seen",
                    "electrons enter, but no lead transition is labeled", **w)
        m.event("electrons_entering", n - 1)
        # independent model of the diagram
        g = ref.grid(v1, v2, res)
        to = io.sum(-1)
        pitch = np.hypot(abs(v1[1] - v1[0]) / (res[0] - 1), abs(v2[1] - v2[0]) / (res[1] - 1)) if two_d else 0.0
        clear = np.abs(r.margins(g)).min(0) > 2e-4 + 1.5 * pitch
        tr = r.total(g)
        if clear.any():
            m.check(np.abs(to - tr)[clear].max() < 1e-6, "reference_totals", f"differs from the curves by {np.abs(to - tr)[clear].max()}", **w)
    m.distinct(name, repr(kw))
    m.sample(**w)


def measure_sensor(m, rng, name, cfg, sim):
    l1, l2 = cfg["volt_limits_sensor_g1"], cfg["volt_limits_sensor_g2"]
    v1, v2 = gen.flip(rng, sub(rng, l1, 0.02, 1.4)), gen.flip(rng, sub(rng, l2, 0.02, 1.4))
    two_d = rng.random() < 0.6
    if two_d:
        res = np.array([int(x) for x in rng.integers(8, 50, 2)])
    else:
        res = int(rng.integers(8, 150))
        k = rng.integers(4)
        if k == 0:
            v1 = np.full(2, v1[0])
        elif k == 1:
            v2 = np.full(2, v2[0])
    kw = dict(sweep_range_sensor_g1=v1, sweep_range_sensor_g2=v2, resolution=gen.res_format(rng, res))
    if rng.random() < 0.8:
        kw.update(volt_g1=float(gen.u(rng, *cfg["volt_limits_g1"])), volt_g2=float(gen.u(rng, *cfg["volt_limits_g2"])))
    w = dict(config=name, request=copy.deepcopy(kw), sweep="sensor")
    scan, cond, peak, meta = sim.measure_sensor_scan(**kw)
    shape = (res[1], res[0]) if two_d else (res,)
    m.check(scan.shape == shape and cond.shape == shape and peak.shape == shape, "sensor_scan_shapes",
            f"{scan.shape} {cond.shape} {peak.shape} instead of {shape}", **w)
    m.check(np.isfinite(scan).all(), "sensor_scan_finite", "scan with undefined values", **w)
    m.check(np.isin(cond, (0, 1, 2)).all(), "sensor_labels", f"labels {np.unique(cond)}", **w)
    m.distinct(name, repr(kw))
    m.sample(**w)


def run_case(m, rng, i):
    from simcats import Simulation, default_configs
    name = sorted(default_configs)[i % len(default_configs)]
    cfg = default_configs[name]
    before = snap(default_configs)
    use = dict(cfg)
    ideal = rng.random() < 0.3
    if ideal:
        use.update(occupation_distortions=None, sensor_potential_distortions=None, sensor_response_distortions=None)
    sim = Simulation(**use)
    reseed(sim, int(rng.integers(2 ** 31)))
    if rng.random() < 0.1:
        # the samplers of random configurations start from the shipped ones
        from simcats.config_samplers import sample_random_variations_v3_config
        try:
            sample_random_variations_v3_config()
        except Exception:
            m.event("sampler_error", 1)
        m.check(snap(default_configs) == before, "unaltered_by_sampler", "sampling a configuration altered a default configuration", config=name)
    scan_sensor = cfg.get("volt_limits_sensor_g1") is not None
    for _ in range(2):
        if scan_sensor and rng.random() < 0.35:
            measure_sensor(m, rng, name, cfg, sim)
        else:
            measure_csd(m, rng, name, cfg, sim, scan_sensor)
    if not ideal and rng.random() < 0.5:
        # use of the shared objects by a second simulation
        measure_csd(m, rng, name, cfg, Simulation(**cfg), scan_sensor)
    m.check(snap(default_configs) == before, "unaltered", "using a default configuration altered it", config=name)


def finish(m):
    """Whole-range facts of every default configuration."""
    from simcats import Simulation, default_configs
    m.check(len(default_configs) >= 2, "all_transitions_visible", "default configurations missing")
    for name, cfg in sorted(default_configs.items()):
        ic = cfg["ideal_csd_config"]
        l1, l2 = cfg["volt_limits_g1"], cfg["volt_limits_g2"]
        occ, lead = ic.get_csd_data(l1, l2, np.array([200, 200]))
        n = len(ic.tct_params)
        tot = occ.sum(-1)
        m.check(tot.min() < 1e-6 and tot.max() > n - 1 - 1e-6 and tot.max() < n, "all_transitions_visible",
                f"{tot.min()} to {tot.max()} electrons with {n} transitions", config=name)
        m.check(set(np.unique(lead)) >= set(range(n)), "all_transitions_visible", f"lead labels {np.unique(lead)}", config=name)
        for k in (0, 1):
            m.check(occ[..., k].max() > 3, "all_transitions_visible", f"dot {k + 1} holds at most {occ[..., k].max()} electrons", config=name)
        # noise-free sensor: signal differs from the one without charges, and resolves the electrons
        s = cfg["sensor"]
        sim = Simulation(**{**cfg, "occupation_distortions": None, "sensor_potential_distortions": None,
                            "sensor_response_distortions": None})
        kw = {}
        if cfg.get("volt_limits_sensor_g1") is not None:
            v1, v2 = cfg["volt_limits_sensor_g1"], cfg["volt_limits_sensor_g2"]
            for g1, g2 in ((l1[0], l2[0]), (l1[1], l2[1])):
                scan, cond, peak, _ = sim.measure_sensor_scan(v1, v2, g1, g2, resolution=np.array([150, 150]))
                frac = [float((cond == k).mean()) for k in (0, 1, 2)]
                m.check(min(frac) > 0.01, "sensor_regimes", f"fractions of the conductive regimes {frac}", config=name)
                m.check(len(np.unique(peak)) > 5, "sensor_regimes", f"peaks labeled: {np.unique(peak)}", config=name)
                m.check(scan.max() > 10 * max(abs(scan[0, 0]), 1e-12) and scan.min() >= 0, "sensor_regimes", "no pinch-off", config=name)
            kw = dict(volt_sensor_g1=-0.5, volt_sensor_g2=-0.5)
        r1, r2 = np.array([l1[0], l1[1]]), np.array([l2[0], l2[1]])
        csd = sim.measure(r1, r2, resolution=np.array([150, 150]), **kw)[0]
        # a strong plunger independent part exists: contrast from single electrons along the sweeps
        d = np.abs(np.diff(csd, axis=1))
        m.check(csd.std() > 1e-6 and d.max() > 0, "sensor_reacts_to_electrons", "flat sensor signal", config=name)
        quiet = np.median(d)
        m.check(d.max() > 2 * quiet, "sensor_reacts_to_electrons",
                "electrons leave no trace in the sensor signal", config=name)
