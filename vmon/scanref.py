"""Reference model of the scan sensor (potentials, series conductance, final rise, labels, deformations)."""
import numpy as np

from . import ref


class ScanRef:
    def __init__(self, kw, deformations=None):
        """kw: constructor arguments of the sensor in their full documented shapes."""
        self.a = np.asarray(kw["alpha_sensor_gate"], float)

        def three(x):
            x = np.zeros((3, 2)) if x is None else np.asarray(x, float)
            return np.tile(x, (3, 1)) if x.shape == (2,) else x
        self.ag, self.ad = three(kw.get("alpha_gate")), three(kw.get("alpha_dot"))
        off = kw.get("offset_mu_sens", 0.0)
        self.off = np.full(3, off, float) if np.ndim(off) == 0 else np.asarray(off, float)
        b = kw["barrier_functions"]
        self.b = tuple(b) if isinstance(b, (list, tuple)) else (b, b)
        p = kw["sensor_peak_function"]
        self.peaks = p if isinstance(p, list) or p is None else [p]
        self.rise = kw.get("final_rise")
        self.deform = deformations or {}

    def potentials(self, occ, volts, svolts):
        """occ, volts, svolts: (..., 2) -> (3, ...)."""
        return np.stack([occ @ self.ad[k] + volts @ self.ag[k] + svolts @ self.a[k] + self.off[k] for k in range(3)])

    def barrier_value(self, k, pot):
        b = self.b[k]
        if hasattr(b, "params"):
            return sum(ref.glf(pot, *b.params[i:i + 7]) for i in range(0, len(b.params), 7))
        return ref.glf(pot, b.asymptote_left, b.asymptote_right, b.growth_rate, b.asymmetry, b.shape_factor, b.denominator_offset, b.offset)

    def barrier_point(self, k, what):
        """Barrier potential where the configured percentage of the range is reached (given directly for multi-component barriers)."""
        b = self.b[k]
        if hasattr(b, "params"):
            return getattr(b, what)
        f = getattr(b, what + "_percentage")
        lo, hi = sorted((b.asymptote_left, b.asymptote_right))
        return ref.inv_glf(lo + f * (hi - lo), b.asymptote_left, b.asymptote_right, b.growth_rate, b.asymmetry, b.shape_factor,
                           b.denominator_offset, b.offset)

    def sensor_point(self, what, occ, volt):
        """Sensor gate voltages where both barriers reach `what` for the given occupation and plunger voltages."""
        base = self.ad[1:] @ occ + self.ag[1:] @ volt + self.off[1:]
        t = np.array([self.barrier_point(k, what) for k in (0, 1)])
        return np.linalg.solve(self.a[1:], t - base)

    def fully_conductive_potential(self, occ, volt):
        s = self.sensor_point("fully_conductive", occ, volt)
        return float(self.ad[0] @ occ + self.ag[0] @ volt + self.a[0] @ s + self.off[0])

    def rise_value(self, mu, occ, volt):
        """occ, volt: one pair for all pixels, or (..., 2) with the pixels' own values."""
        r = self.rise
        if np.ndim(occ) > 1:
            b = np.broadcast_arrays(occ, volt)
            fcp = np.array([self.fully_conductive_potential(o, v) for o, v in zip(b[0].reshape(-1, 2), b[1].reshape(-1, 2))])
            fcp = fcp.reshape(b[0].shape[:-1])
        else:
            fcp = self.fully_conductive_potential(occ, volt)
        # fully conductive potential of the rise function itself, then moved to the fully conductive point of the barriers
        fc = ref.inv_glf(r.asymptote_left + r.fully_conductive_percentage * (r.asymptote_right - r.asymptote_left), r.asymptote_left,
                         r.asymptote_right, r.growth_rate, r.asymmetry, r.shape_factor, r.denominator_offset, 0.0)
        return ref.glf(mu, r.asymptote_left, r.asymptote_right, r.growth_rate, r.asymmetry, r.shape_factor, r.denominator_offset,
                       fcp - fc)

    def distances(self, svolts, occ, volt):
        """Signed distance (positive above) to the line through the pinch-off point along the dot potential's gradient."""
        p = self.sensor_point("pinch_off", occ, volt)
        d = np.array([self.a[0, 0], self.a[0, 1]])
        d = d / np.linalg.norm(d) * np.sign(d[0])
        # positive if below/right of the direction: keep the sign convention of the signed point-line distance (clockwise positive)
        q = svolts - p
        return -(d[0] * q[..., 1] - d[1] * q[..., 0])

    def peak_centers(self, idx, dist):
        mu0 = self.peaks[idx].mu0
        d = self.deform.get(idx)
        if d is None:
            return np.full(np.shape(dist), mu0)
        nrm = np.linalg.norm(self.a[0])
        if "angle" in d:
            return mu0 + dist * nrm / np.tan(d["angle"])
        r = d["radius"] / nrm
        x = np.minimum(np.abs(dist), abs(r))
        return mu0 - np.sign(r) * (abs(r) - np.sqrt(np.maximum(r * r - x * x, 0)))

    def dot_value(self, mu, dist=None):
        if self.peaks is None:
            return mu
        out = np.zeros(np.shape(mu))
        for i, p in enumerate(self.peaks):
            if dist is not None and i in self.deform:
                out = out + ref.peak_value(p, mu - self.peak_centers(i, dist) + p.mu0)
            else:
                out = out + ref.peak_value(p, mu)
        return out

    def signal(self, pots, occ=None, volt=None, dist=None):
        """Series conductance; occ/volt: occupations and plunger voltages, constant or per pixel (needed for the final rise)."""
        x = self.dot_value(pots[0], dist)
        if self.rise is not None and occ is not None:
            x = np.maximum(x, self.rise_value(pots[0], occ, volt))
        y, z = self.barrier_value(0, pots[1]), self.barrier_value(1, pots[2])
        with np.errstate(all="ignore"):
            den = y * z + x * y + x * z
            return np.where(den != 0, x * y * z / np.where(den != 0, den, 1), 0.0), (x, y, z)


def judge_labels(m, r, pots, cond, mask, occ, volt, dist=None, **w):
    """Regime labels and peak labels of a sensor scan (2D: rows along gate 1; 1D: one row)."""
    cond, mask = np.asarray(cond).astype(int), np.asarray(mask).astype(int)
    pin = [r.barrier_point(k, "pinch_off") for k in (0, 1)]
    fc = r.fully_conductive_potential(occ, volt)
    eps = 1e-9
    exp = np.zeros(cond.shape, int)
    open_ = (pots[1] > pin[0]) & (pots[2] > pin[1])
    exp[open_] = 1
    exp[open_ & (pots[0] > fc)] = 2
    close = (np.abs(pots[1] - pin[0]) < eps) | (np.abs(pots[2] - pin[1]) < eps) | (np.abs(pots[0] - fc) < eps)
    bad = (cond != exp) & ~close
    m.check(not bad.any(), "regimes", f"{int(bad.sum())} of {bad.size} pixels carry a wrong regime: {cond[bad][:3]} expected {exp[bad][:3]}", **w)
    for k in (0, 1, 2):
        m.event(f"regime_{k}", int((exp == k).sum()))
    m.check(not mask[cond != 1].any(), "peaks_only_in_regime_1", "a peak is labelled outside of the Coulomb oscillation regime", **w)
    npk = len(r.peaks or [])
    m.check(mask.min() >= 0 and mask.max() <= npk, "peak_numbers", f"labels up to {mask.max()} for {npk} peaks", **w)
    rows = (lambda x: x) if mask.ndim == 2 else (lambda x: x[None])
    M, C, P = rows(mask), rows(cond), rows(pots[0])
    step = abs(np.mean(np.diff(P, axis=1)))
    n = M.shape[1]
    near = []
    for i in range(npk):
        cen = rows(np.broadcast_to(r.peak_centers(i, dist) if dist is not None else r.peaks[i].mu0, pots[0].shape))
        near.append(np.abs(P - cen))
    argmins = [d.argmin(1) for d in near]
    placed = labelled = 0
    for i in range(npk):
        d, am = near[i], argmins[i]
        at = M == i + 1
        m.check((at.sum(1) <= 1).all(), "one_pixel_per_row", f"peak {i + 1} is labelled {int(at.sum(1).max())} times in a row", **w)
        mn = d.min(1)
        off = at & (d > mn[:, None] + 1e-9)
        m.check(not off.any(), "closest_pixel", f"peak {i + 1}: {int(off.sum())} labels are not at the pixel closest to the peak", **w)
        edge = at.copy()
        edge[:, 1:-1] = False
        m.check(not (edge & (d > 1.01 * step)).any(), "no_far_label", f"peak {i + 1} is labelled at the edge although it lies outside", **w)
        for y in range(M.shape[0]):
            # unique closest pixel in regime 1: has to carry the peak's label, or the one of another peak closest there
            if (d[y] <= mn[y] + 1e-9).sum() != 1 or C[y, am[y]] != 1:
                continue
            if am[y] in (0, n - 1) and mn[y] > 0.5 * step:
                continue
            others = [j + 1 for j in range(npk) if argmins[j][y] == am[y]]
            placed += 1
            got = M[y, am[y]]
            labelled += got == i + 1
            if got not in others:
                m.check(False, "peak_labelled", f"peak {i + 1} is not labelled in row {y} (pixel {am[y]} carries {got})", **w)
                break
        else:
            m.check(True, "peak_labelled")
    m.event("peak_rows_judged", placed)
    m.event("peak_labels_seen", labelled)
    return exp
