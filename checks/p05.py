"""P05: lead transition labels mark exactly the charge transitions."""
import numpy as np

from vmon import gen, ref
from vmon.core import Skip

PID = "P05"
TITLE = "Lead transition labels mark exactly the charge transitions"
RULE = ("random geometries, look-up tables, windows and directions; every labelled pixel, every pixel pair next to each other and "
        "every point of a densely sampled transition inside of the window is judged; non-trivial = distinct mask with labels")
ASSUMPTIONS = ["2D: a pixel counts as crossed if the transition passes within 0.25 pixel of its area"]
CASES = {"quick": 1000, "thorough": 40000}
REQUIRED = {"labelled_is_crossed": 200, "transition_is_labelled": 200, "unlabelled_not_crossed": 200, "label_1d": 100,
            "connected": 100, "many_transitions": 8}


def dense(r, k, a, b, per, margin):
    """Points of transition k (0-based) covering the window, spaced by at most `per`."""
    c = ref.rot(np.array([[x, y] for x in a for y in b]), -r.rotation)
    lo, hi = c[:, 0].min() - margin, c[:, 0].max() + margin
    x = np.linspace(lo, hi, int((hi - lo) / per) + 2)
    return ref.rot(np.stack([x, r.tcts[k](x)], -1), r.rotation)


def run_case(m, rng, i):
    lut = None if rng.random() < 0.2 else True
    many = i % 12 == 5
    kw = gen.ideal_kwargs(rng, n=int(rng.choice([2, 3, 4, 5, 6])) if not many else int(rng.integers(9, 24)), lut=lut, decay=False if many else None)
    r = gen.csd_ref(kw)
    csd = gen.ideal(kw)
    w = dict(config=kw)
    if rng.random() < 0.35:
        a, b, kind = gen.line(rng, r)
        n = gen.n1(rng)
        w.update(window=[a, b], resolution=n)
        occ, lab = csd.get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=gen.res_format(rng, n))
        lo, hi = r.total_bounds(ref.grid(a, b, n))
        tot = np.rint(occ.sum(-1)).astype(int)
        m.check(((tot >= lo) & (tot <= hi)).all(), "total_1d", "totals differ from the geometry", **w)
        exp = np.zeros(n, int)
        for j in range(n - 1):
            if tot[j] != tot[j + 1]:
                exp[j if tot[j] > tot[j + 1] else j + 1] = max(tot[j], tot[j + 1])
        m.check(np.array_equal(lab, exp), "label_1d", f"labels {np.flatnonzero(lab)}:{lab[lab > 0]} expected "
                f"{np.flatnonzero(exp)}:{exp[exp > 0]}", **w)
        m.event("labels_1d", int((exp > 0).sum()))
        if exp.max() > 12:
            m.check(lab.max() == exp.max(), "many_transitions", str(lab.max()), **w)
        if exp.any():
            m.distinct(lab, a, b)
        return
    v1, v2 = gen.window(rng, r, size=(0.04, 0.15)) if many and rng.random() < 0.5 else gen.window(rng, r)
    res = gen.resolution2(rng, v1, v2, 10, 80 if lut else 40)
    p1, p2 = (v1[1] - v1[0]) / (res[0] - 1), (v2[1] - v2[0]) / (res[1] - 1)
    if -r.margins(ref.grid(v1, v2, [40, 40]))[-1].max() < 1.2 * np.hypot(p1, p2):
        raise Skip()
    a, b = gen.flip(rng, v1), gen.flip(rng, v2)
    w.update(window=[a, b], resolution=res)
    occ, lab = csd.get_csd_data(volt_limits_g1=a, volt_limits_g2=b, resolution=gen.res_format(rng, res))
    lab = np.asarray(lab).astype(int)
    m.check(lab.shape == (res[1], res[0]) and lab.min() >= 0 and lab.max() <= len(r.tcts), "mask_shape", str(lab.shape), **w)
    # ascending orientation for the judgement
    asc = lab[::-1] if b[0] > b[1] else lab
    asc = asc[:, ::-1] if a[0] > a[1] else asc
    tol = r.tol()
    per = min(p1, p2) / 20
    crossed = np.zeros((len(r.tcts),) + asc.shape, bool)       # certainly crossed (well inside of the pixel)
    near = np.zeros_like(crossed)                              # possibly crossed
    for k in range(len(r.tcts)):
        pts = dense(r, k, v1, v2, per, 2 * max(p1, p2))
        fx, fy = (pts[:, 0] - v1[0]) / p1, (pts[:, 1] - v2[0]) / p2
        t = 2 * tol / min(p1, p2)
        for dx in (-0.25 - t, 0, 0.25 + t):
            for dy in (-0.25 - t, 0, 0.25 + t):
                ix, iy = np.rint(fx + dx).astype(int), np.rint(fy + dy).astype(int)
                ok = (ix >= 0) & (ix < res[0]) & (iy >= 0) & (iy < res[1])
                near[k, iy[ok], ix[ok]] = True
        core = 0.5 - 0.3 - t
        ix, iy = np.rint(fx).astype(int), np.rint(fy).astype(int)
        # pixels at the border of the window reach half a pitch beyond it, as all others (not judged at the corners)
        corner = ((fx < 0) | (fx > res[0] - 1) | (fy < 0) | (fy > res[1] - 1)) & np.isin(ix, (0, res[0] - 1)) & np.isin(iy, (0, res[1] - 1))
        if max(p1, p2) > 2 * min(p1, p2):
            corner |= (fx < 0) | (fx > res[0] - 1) | (fy < 0) | (fy > res[1] - 1)
        ok = ~corner & (ix >= 0) & (ix < res[0]) & (iy >= 0) & (iy < res[1]) & (np.abs(fx - ix) < core) & (np.abs(fy - iy) < core)
        crossed[k, iy[ok], ix[ok]] = True
        # every point of the transition inside of the window is labelled (that pixel or, at pixel borders, the one next to it)
        inside = (fx >= 0) & (fx <= res[0] - 1) & (fy >= 0) & (fy <= res[1] - 1)
        if inside.any():
            is_k = asc >= k + 1     # a later transition through the same pixel overwrites the label
            pad = np.pad(is_k, 1)
            grown = np.zeros_like(is_k)
            for sy in (0, 1, 2):
                for sx in (0, 1, 2):
                    grown |= pad[sy:sy + asc.shape[0], sx:sx + asc.shape[1]]
            ix, iy = np.rint(fx[inside]).astype(int), np.rint(fy[inside]).astype(int)
            hit = grown[np.clip(iy, 0, res[1] - 1), np.clip(ix, 0, res[0] - 1)]
            m.check(hit.all(), "transition_is_labelled", f"transition {k + 1}: {int((~hit).sum())} points of the transition "
                    f"without a label nearby", **w)
    for k in range(len(r.tcts)):
        bad = (asc == k + 1) & ~near[k]
        m.check(not bad.any(), "labelled_is_crossed", f"label {k + 1} on {int(bad.sum())} pixels that the transition does not "
                f"touch, first {np.argwhere(bad)[:1].tolist()}", **w)
        # certainly crossed by k and by no later one: must carry label k+1
        later = near[k + 1:].any(0) if k + 1 < len(r.tcts) else np.zeros(asc.shape, bool)
        bad = crossed[k] & ~later & (asc != k + 1)
        m.check(not bad.any(), "unlabelled_not_crossed", f"{int(bad.sum())} pixels crossed by transition {k + 1} carry other labels "
                f"{asc[bad][:3]}", **w)
    # without gaps: unlabelled neighbours (4-connected) always have the same total occupation
    tot = np.rint(occ.sum(-1))
    free = lab == 0
    g1 = free[:, 1:] & free[:, :-1] & (tot[:, 1:] != tot[:, :-1])
    g2 = free[1:] & free[:-1] & (tot[1:] != tot[:-1])
    m.check(not g1.any() and not g2.any(), "connected", f"{int(g1.sum() + g2.sum())} unlabelled neighbours with different totals", **w)
    m.event("labels_2d", int((lab > 0).sum()))
    if crossed[12:].any():
        m.check(lab.max() > 12, "many_transitions", f"largest label {lab.max()}", **w)
    if lab.any():
        m.distinct(lab, a, b)
    m.sample(**w)
