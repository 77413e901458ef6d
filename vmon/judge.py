"""Oracles shared by several checks."""
import numpy as np

from . import ref


def neighbourhood_totals(r, sweep1, sweep2, res, reach=0.75):
    """(minimum, maximum) total over points up to `reach` pixel pitches around each pixel centre."""
    g = ref.grid(sweep1, sweep2, res)
    p1 = abs(sweep1[1] - sweep1[0]) / (res[0] - 1)
    p2 = abs(sweep2[1] - sweep2[0]) / (res[1] - 1)
    lo = hi = None
    for d1 in (-reach, 0, reach):
        for d2 in (-reach, 0, reach):
            a, b = r.total_bounds(g + np.array([d1 * p1, d2 * p2]))
            lo = a if lo is None else np.minimum(lo, a)
            hi = b if hi is None else np.maximum(hi, b)
    return lo, hi


def judge_occ_2d(m, r, sweep1, sweep2, res, occ, lab, prefix="", **w):
    """Occupations (and their relation to the labels) of an ideal 2D scan against the reference diagram."""
    g = ref.grid(sweep1, sweep2, res)
    lab = np.asarray(lab).astype(int)
    tot = occ.sum(-1)
    ti = np.rint(tot).astype(int)
    m.close(tot, ti, prefix + "total_is_integer", "sum of the occupations", atol=1e-9, **w)
    m.check(occ.min() >= -1e-12, prefix + "non_negative", f"minimum occupation {occ.min()}", **w)
    lo, hi = neighbourhood_totals(r, sweep1, sweep2, res)
    free = lab == 0
    bad = free & ((ti < lo) | (ti > hi))
    m.check(not bad.any(), prefix + "total_unlabelled",
            f"{int(bad.sum())} unlabelled pixels outside of the possible totals, first {np.argwhere(bad)[:1].tolist()}: "
            f"{ti[bad][:1]} not in [{lo[bad][:1]}, {hi[bad][:1]}]", **w)
    bad = ~free & (ti != lab)
    m.check(not bad.any(), prefix + "total_labelled",
            f"{int(bad.sum())} labelled pixels without the total of their label: {ti[bad][:3]} vs {lab[bad][:3]}", **w)
    m.event("pixels_judged_exactly", int((free & (lo == hi)).sum()))
    m.event("pixels_labelled", int((~free).sum()))
    judge_split(m, r, g, ti, occ, prefix, **w)
    return ti


def judge_split(m, r, g, ti, occ, prefix="", **w):
    n_max = len(r.tcts) - 1
    exp = np.zeros(occ.shape)
    for n in np.unique(ti):
        if 0 < n <= n_max:
            sel = ti == n
            a, b = r.split(n, g[sel])
            exp[sel] = np.stack([a, b], -1)
    m.close(occ, exp, prefix + "split", "occupations of the two dots", rtol=1e-7, atol=1e-7, **w)
    frac = np.abs(occ[..., 0] - np.rint(occ[..., 0])) > 0.02
    m.event("pixels_in_interdot_transitions", int(frac.sum()))


def judge_occ_1d(m, r, sweep1, sweep2, n, occ, prefix="", **w):
    g = ref.grid(sweep1, sweep2, n)
    tot = occ.sum(-1)
    ti = np.rint(tot).astype(int)
    m.close(tot, ti, prefix + "total_is_integer", "sum of the occupations", atol=1e-9, **w)
    m.check(occ.min() >= -1e-12, prefix + "non_negative", f"minimum occupation {occ.min()}", **w)
    lo, hi = r.total_bounds(g)
    bad = (ti < lo) | (ti > hi)
    m.check(not bad.any(), prefix + "total_1d",
            f"{int(bad.sum())} pixels of the 1D scan, first {np.argwhere(bad)[:1].tolist()}: {ti[bad][:1]} not in "
            f"[{lo[bad][:1]}, {hi[bad][:1]}]", **w)
    m.event("pixels_judged_exactly", int((lo == hi).sum()))
    judge_split(m, r, g, ti, occ, prefix, **w)
    return ti
