"""P04: occupations follow the charge-transition geometry."""
import numpy as np

from vmon import gen, judge, ref
from vmon.core import Skip

PID = "P04"
TITLE = "Occupations follow the charge-transition geometry"
RULE = ("random geometries (1-6 transitions, several slopes/widths/decays, rotations, both distributions, gamma factors, look-up "
        "tables of several sizes and exact curves), random 2D windows and 1D lines in every direction; non-trivial = distinct "
        "scan with more than one total occupation")
ASSUMPTIONS = ["2D pixels crossed by a transition (within 0.75 pixel) may take either side's total"]
CASES = {"quick": 1000, "thorough": 40000}
REQUIRED = {"total_unlabelled": 200, "split": 400, "total_1d": 100, "above_last_raises": 50, "many_electrons": 5}


def above(m, rng, csd, r, w):
    """Move a window up until it reaches clearly above the last transition."""
    v1, v2 = gen.window(rng, r)
    two = rng.random() < 0.5
    if not two:
        v1, v2, _ = gen.line(rng, r)
    res = gen.resolution2(rng, v1, v2, 8, 30) if two else gen.n1(rng)
    d = np.hypot((v1[1] - v1[0]) / (res[0] - 1), (v2[1] - v2[0]) / (res[1] - 1)) if two else 1e-4
    for k in range(400):
        top = r.margins(ref.grid(v1, v2, res))[-1].max()
        if top > 2.5 * d:
            break
        v1, v2 = v1 + 5e-4, v2 + 5e-4
    else:
        raise Skip()
    try:
        out = csd.get_csd_data(volt_limits_g1=gen.flip(rng, v1) if two else v1, volt_limits_g2=gen.flip(rng, v2) if two else v2,
                               resolution=np.array(res) if two else res)
        got = f"occupations with maximum total {out[0].sum(-1).max()}"
    except IndexError:
        got = "IndexError"
    m.check(got == "IndexError", "above_last_raises", f"window reaching {top:.2g} V above the last transition: {got}", **w,
            window=[v1, v2], resolution=res)


def run_case(m, rng, i):
    lut = None if rng.random() < 0.2 else True
    n = int(rng.choice([2, 3, 4, 5, 6])) if lut else int(rng.integers(2, 5))
    many = i % 10 == 1
    if many:                        # charge regions with many electrons
        n = int(rng.integers(8, 16))
    kw = gen.ideal_kwargs(rng, n=n, lut=lut)
    r = gen.csd_ref(kw)
    csd = gen.ideal(kw)
    w = dict(config=kw)
    hi = 25 if lut is None else 80
    if i % 8 == 0:
        above(m, rng, csd, r, w)
        return
    if rng.random() < 0.6:
        v1, v2 = gen.window(rng, r)
        res = gen.resolution2(rng, v1, v2, 10, hi, r=r)
        room = -r.margins(ref.grid(v1, v2, [40, 40]))[-1].max()
        if room < 1.2 * np.hypot((v1[1] - v1[0]) / (res[0] - 1), (v2[1] - v2[0]) / (res[1] - 1)):
            raise Skip()
        a, b = gen.flip(rng, v1), gen.flip(rng, v2)
        w.update(window=[a, b], resolution=res)
        occ, lab = csd.get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=gen.res_format(rng, res))
        if not m.check(occ.shape == (res[1], res[0], 2) and lab.shape == (res[1], res[0]), "shape", f"{occ.shape} {lab.shape}", **w):
            return
        ti = judge.judge_occ_2d(m, r, a, b, res, occ, lab, **w)
        m.event("scan_2d")
    else:
        a, b, kind = gen.line(rng, r)
        num = gen.n1(rng)
        w.update(window=[a, b], resolution=num)
        occ, lab = csd.get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=gen.res_format(rng, num))
        if not m.check(occ.shape == (num, 2) and lab.shape == (num,), "shape", f"{occ.shape} {lab.shape}", **w):
            return
        ti = judge.judge_occ_1d(m, r, a, b, num, occ, **w)
        m.event("scan_1d_" + kind)
    if np.max(ti) > 8:
        m.check(np.isfinite(occ).all() and abs(np.max(occ.sum(axis=-1)) - np.max(ti)) <= 1.01, "many_electrons",
                f"{np.max(occ.sum(axis=-1))} of {np.max(ti)}", **w)
    m.event("exact_curve" if lut is None else "lut")
    if len(np.unique(ti)) > 1:
        m.distinct(occ)
    m.sample(**w)
