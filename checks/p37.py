"""P37: gate voltages charge the dots one electron at a time."""
import copy

import numpy as np

from vmon import gen
from vmon.core import Skip

PID = "P37"
TITLE = "Gate voltages charge the dots one electron at a time"
RULE = ("noise-free scans of random diagrams, shipped configurations and sampled configurations along gate 1, gate 2, both diagonals and in "
        "2D; physical invariants judged pixel by pixel without a model of the diagram; non-trivial = distinct scan with several charge states")
ASSUMPTIONS = ["a pixel next to a triple point may see two transitions at once (at most two pairs of pixels per 1D scan)",
               "2D pixels crossed by a transition are not judged",
               "which lead transitions belong to which dot is judged for diagrams rotated by 45 degrees (then the steep ones belong to dot 1)"]
CASES = {"quick": 4000, "thorough": 40000}
REQUIRED = {"total_monotonic": 700, "bounds": 1500, "toward_dot": 700, "one_electron": 700, "starts_empty": 150, "steep_is_dot1": 150,
            "rows_and_columns": 300, "no_coupling": 200, "shipped": 150, "sampled": 60}
STEPS = {"g1": (1, 0), "g2": (0, 1), "diag": (1, 1), "anti": (1, -1)}


def subject(m, rng, i):
    """(keyword arguments, ideal diagram)."""
    k = i % 15
    if k in (0, 7):
        from simcats import default_configs
        c = default_configs[str(rng.choice(sorted(default_configs)))]["ideal_csd_config"]
        m.check(True, "shipped")
        ideal = copy.deepcopy(c)
    elif k == 3:
        from simcats.config_samplers import sample_random_variations_v3_config as sample
        from .p27 import seeded
        with seeded(rng):
            ideal = sample()["ideal_csd_config"]
        m.check(True, "sampled")
    else:
        zw = rng.random() < 0.2
        kw = gen.ideal_kwargs(rng, zero_width=zw)
        if zw:
            m.check(True, "no_coupling")
        return kw, gen.ideal(kw)
    return dict(tct_params=ideal.tct_params, rotation=ideal.rotation, lut_entries=ideal.lut_entries, cdf_type=ideal.cdf_type,
                cdf_gamma_factor=ideal.cdf_gamma_factor), ideal


def measure(rng, ideal, v1, v2, res):
    """Occupations and labels of a noise-free scan, directly or through a simulation."""
    if rng.random() < 0.5:
        return ideal.get_csd_data(volt_limits_g1=v1, volt_limits_g2=v2, resolution=res)
    from simcats import Simulation
    from simcats.sensor import SensorGeneric
    s = SensorGeneric(sensor_peak_function=None, alpha_dot=np.array([-1e-3, -2e-3]), alpha_gate=np.array([1e-3, 2e-3]))
    return Simulation(ideal_csd_config=ideal, sensor=s).measure(sweep_range_g1=v1, sweep_range_g2=v2, resolution=res)[1:3]


def integer(occ):
    return np.abs(occ - np.rint(occ)).max(-1) < 0.1


def judge_line(m, occ, step, straight, w):
    """Invariants along a 1D scan that moves by `step` (both voltages of the step may not fall, or exactly one of them)."""
    tot = occ.sum(-1)
    n = np.rint(tot).astype(int)
    m.check(np.abs(tot - n).max() < 1e-9 and occ.min() > -1e-9, "bounds", f"total {tot.min()}..{tot.max()}, minimum {occ.min()}", **w)
    d = np.diff(n)
    if min(step) >= 0:
        m.check((d >= 0).all(), "total_monotonic", f"{int((d < 0).sum())} times an electron left although no voltage fell", **w)
    same = d == 0
    do = np.diff(occ, axis=0)
    bad = np.zeros(same.shape, bool)
    if step != (1, 1):
        j = 0 if step[0] > 0 else 1
        if step == (1, -1) or straight:
            bad = same & ((do[:, j] < -1e-9) | (do[:, 1 - j] > 1e-9))
            m.check(not bad.any(), "toward_dot", f"{int(bad.sum())} times charge moved away from the dot of the rising gate, e.g. at "
                    f"{np.flatnonzero(bad)[:1]}: {do[bad][:1]}", **w)
    ok = integer(occ)
    pair = ok[1:] & ok[:-1]
    r = np.rint(do).astype(int)
    one = (np.abs(r).sum(-1) <= 1) | ((r.sum(-1) == 0) & (np.abs(r).max(-1) <= 1))
    bad = pair & ~one
    m.check(bad.sum() <= 2, "one_electron", f"{int(bad.sum())} pairs of neighbouring pixels differ by more than one electron, e.g. {r[bad][:2].tolist()}", **w)
    return n, r, pair


def run_case(m, rng, i):
    kw, ideal = subject(m, rng, i)
    straight = abs(kw["rotation"] + np.pi / 4) < 1e-9
    r = gen.csd_ref(kw)             # only to find interesting windows inside of the domain
    v1, v2 = gen.window(rng, r, size=(0.008, 0.045), clearance=3e-3)
    w = dict(config=kw)
    mode = i % 4
    if mode == 3:
        rows_and_columns(m, rng, ideal, r, v1, v2, straight, w)
        return
    kind = str(rng.choice(["g1", "g2", "diag", "anti"])) if mode else "diag"
    a, b = v1.copy(), v2.copy()
    length = min(np.ptp(a), np.ptp(b))
    a[1], b[1] = a[0] + length, b[0] + length
    if kind == "g1":
        b[:] = gen.u(rng, *b)
    elif kind == "g2":
        a[:] = gen.u(rng, *a)
    elif kind == "anti":
        b = b[::-1].copy()
    pitch = float(gen.u(rng, 1e-4, 2.5e-4))
    num = int(length / pitch) + 2
    back = rng.random() < 0.5
    occ, lab = measure(rng, ideal, a[::-1] if back else a, b[::-1] if back else b, num)
    occ = np.array(occ)[::-1] if back else np.array(occ)
    w.update(g1=a, g2=b, resolution=num, kind=kind)
    n, d, pair = judge_line(m, occ, STEPS[kind], straight, w)
    if len(np.unique(n)) > 1:
        m.distinct(occ)
    if i % 10 == 4:
        # far below the first transition
        k = np.array([c + np.array([-1, -1]) * 0.3 for c in (a, b)])
        far, _ = measure(rng, ideal, k[0], k[1], 12)
        m.check(not np.any(far), "starts_empty", f"occupations up to {np.max(far)} far below all transitions", **w)
    if kind == "diag" and straight:
        steepness(m, rng, ideal, r, a, b, w)


def steepness(m, rng, ideal, r, a, b, w):
    """The lead transitions which are more sensitive to gate 1 add electrons to dot 1, the others to dot 2."""
    delta = 1e-3
    num = int(np.ptp(a) / 5e-5) + 1
    cross = []
    for s in (-1, 0, 1):
        occ, _ = measure(rng, ideal, a + s * delta, b - s * delta, num)
        occ = np.array(occ)
        n = np.rint(occ.sum(-1)).astype(int)
        found = {}
        for k in np.flatnonzero(np.diff(n) == 1):
            if integer(occ[k:k + 2]).all():
                found[int(n[k])] = (int(k), tuple(int(x) for x in np.rint(occ[k + 1]) - np.rint(occ[k])))
        cross.append(found)
    for n in set(cross[0]) & set(cross[1]) & set(cross[2]):
        (k0, d0), (k1, d1), (k2, d2) = (c[n] for c in cross)
        if not (d0 == d1 == d2):
            continue
        if k0 - k1 > 1 and k1 - k2 > 1 or k1 - k0 > 1 and k2 - k1 > 1:
            if abs(k0 + k2 - 2 * k1) > 0.5 * abs(k0 - k2):      # bent
                continue
            # going to larger g1 and lower g2: an earlier transition needs less voltage, so it is more sensitive to gate 1
            want = (1, 0) if k2 < k0 else (0, 1)
            m.check(d1 == want, "steep_is_dot1", f"electron {n + 1} goes to the dots as {d1} although the transition is more sensitive to gate "
                    f"{1 if want == (1, 0) else 2}", crossings=[k0, k1, k2], **w)


def rows_and_columns(m, rng, ideal, r, v1, v2, straight, w):
    res = gen.resolution2(rng, v1, v2, 12, 60, r=r)
    f1, f2 = rng.random() < 0.5, rng.random() < 0.5
    occ, lab = measure(rng, ideal, v1[::-1] if f1 else v1, v2[::-1] if f2 else v2, np.array(res))
    occ, lab = np.array(occ), np.array(lab)
    if f1:
        occ, lab = occ[:, ::-1], lab[:, ::-1]
    if f2:
        occ, lab = occ[::-1], lab[::-1]
    w = dict(w, g1=v1, g2=v2, resolution=res)
    tot = np.rint(occ.sum(-1)).astype(int)
    m.check(np.abs(occ.sum(-1) - tot).max() < 1e-9 and occ.min() > -1e-9, "bounds", f"total {tot.min()}..{tot.max()}", **w)
    if len(np.unique(tot)) > 1:
        m.distinct(occ)
    for axis in (0, 1):
        j = 1 - axis                # axis 1: gate 1 rises, axis 0: gate 2 rises
        o, t, f = (np.swapaxes(x, 0, 1) if axis == 0 else x for x in (occ, tot, lab == 0))
        down = moved = 0
        for q in range(o.shape[0]):
            s = np.flatnonzero(f[q])
            if s.size < 2:
                continue
            d = np.diff(t[q][s])
            down += int((d < 0).sum())
            if straight:
                e = np.diff(o[q][s], axis=0)
                bad = (d == 0) & ((e[:, j] < -1e-9) | (e[:, 1 - j] > 1e-9))
                moved += int(bad.sum())
        m.check(down == 0, "rows_and_columns", f"{down} times an electron left although gate {j + 1} rises", axis=axis, **w)
        m.check(moved == 0, "rows_and_columns", f"{moved} times charge moved away from dot {j + 1} although its gate rises", axis=axis, **w)
