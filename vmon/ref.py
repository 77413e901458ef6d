"""Independent reference models (written from the documented physics/geometry, not from the code under test)."""
import math

import numpy as np


# ---------------------------------------------------------------------------------------------- geometry
def rot(points, angle):
    p = np.asarray(points, dtype=float)
    c, s = math.cos(angle), math.sin(angle)
    return np.stack([c * p[..., 0] - s * p[..., 1], s * p[..., 0] + c * p[..., 1]], axis=-1)


class TCT:
    """One total charge transition in rotated space: `peaks` maxima, peaks-1 minima in between, linear outside."""

    def __init__(self, params, peaks):
        p = np.array(params, dtype=float)
        self.len_l, self.len_r, self.s1, self.s2 = p[:4]
        self.left, self.right = p[4:6], p[6:8]
        self.n = peaks
        if np.array_equal(self.left, self.right):
            self.c0 = self.left.copy()
        else:
            # intersection of the left line (slope s1 through left anchor) and right line (slope s2 through right anchor)
            x = (self.left[1] - self.right[1] + self.right[0] * self.s2 - self.left[0] * self.s1) / (self.s2 - self.s1)
            self.c0 = np.array([x, self.left[1] + self.s1 * (x - self.left[0])])
        self.dl = self.c0[0] - self.left[0]
        self.dr = self.right[0] - self.c0[0]
        self.period = np.array([self.len_l + self.len_r, self.len_r * self.s2 + self.len_l * self.s1])

    def peak(self, k):
        return self.c0 + k * self.period

    def valley(self, k):
        return self.peak(k) + self.len_r * np.array([1.0, self.s2])

    def anchors(self, k):
        """(left, center, right) anchor of extremum number k (even: maximum, odd: minimum)."""
        if k % 2 == 0:
            c = self.peak(k // 2)
            return c - self.dl * np.array([1, self.s1]), c, c + self.dr * np.array([1, self.s2])
        c = self.valley(k // 2)
        return c - self.dr * np.array([1, self.s2]), c, c + self.dl * np.array([1, self.s1])

    def __call__(self, x):
        x = np.asarray(x, dtype=float)
        y = np.empty(x.shape)
        flat_x, flat_y = x.ravel(), y.reshape(-1)
        # nearest extremum decides which straight lines / bezier segment applies
        ext = [self.anchors(k) for k in range(2 * self.n - 1)]
        first, last = ext[0], ext[-1]
        done = flat_x <= first[0][0]
        flat_y[done] = first[0][1] + self.s1 * (flat_x[done] - first[0][0])
        sel = (~done) & (flat_x >= last[2][0])
        flat_y[sel] = last[2][1] + self.s2 * (flat_x[sel] - last[2][0])
        done |= sel
        for k, (a, c, b) in enumerate(ext):
            sel = (~done) & (flat_x >= a[0]) & (flat_x <= b[0])
            if sel.any():
                flat_y[sel] = quad_bezier_y(a, c, b, flat_x[sel])
                done |= sel
            if k + 1 < len(ext):
                nxt = ext[k + 1][0]
                sel = (~done) & (flat_x > b[0]) & (flat_x < nxt[0])
                slope = self.s2 if k % 2 == 0 else self.s1
                flat_y[sel] = b[1] + slope * (flat_x[sel] - b[0])
                done |= sel
        assert done.all()
        return y

    def lut_tol(self, lut_entries):
        if lut_entries is None:
            return 1e-9
        # nearest entry: half of the largest spacing (at most 2*max leg / (n-1)) times the larger slope
        return max(self.dl, self.dr) * 2 / (lut_entries - 1) * max(abs(self.s1), abs(self.s2)) + 1e-12


def quad_bezier_y(a, c, b, x):
    """y(x) of the quadratic bezier curve with control points a, c, b (x monotonic)."""
    A = a[0] - 2 * c[0] + b[0]
    B = 2 * (c[0] - a[0])
    C = a[0] - x
    disc = np.sqrt(np.maximum(B * B - 4 * A * C, 0))
    with np.errstate(all="ignore"):
        t = np.where(B + disc != 0, -2 * C / np.where(B + disc != 0, B + disc, 1.0), 0.0)
    t = np.clip(t, 0, 1)
    return (1 - t) ** 2 * a[1] + 2 * t * (1 - t) * c[1] + t ** 2 * b[1]


class CSDRef:
    """Reference for the geometric ideal CSD."""

    def __init__(self, tct_params, rotation=-np.pi / 4, lut_entries=None, cdf_type="sigmoid", cdf_gamma_factor=None):
        self.tcts = [TCT(p, k + 1) for k, p in enumerate(tct_params)]
        self.rotation = rotation
        self.lut = lut_entries
        self.cdf = cdf_type
        self.gf = cdf_gamma_factor if cdf_gamma_factor is not None else (2.2 if cdf_type == "sigmoid" else 6.15)

    def margins(self, pts):
        """Height of the points above every TCT (rotated space), shape (n_tct, ...)."""
        r = rot(pts, -self.rotation)
        return np.stack([r[..., 1] - t(r[..., 0]) for t in self.tcts])

    def tol(self):
        return max(t.lut_tol(self.lut) for t in self.tcts)

    def total(self, pts, shift=0.0):
        """Number of TCTs passed without gap, counted from the first one."""
        above = self.margins(pts) + shift >= 0
        return np.sum(np.cumprod(above, axis=0), axis=0)

    def total_bounds(self, pts, extra=0.0):
        t = self.tol() + extra
        return self.total(pts, -t), self.total(pts, +t)

    def split(self, n, pts):
        """(occupation dot 1, occupation dot 2) for points with total occupation n (n >= 1)."""
        pts = np.asarray(pts, dtype=float)
        cur, nxt = self.tcts[n - 1], self.tcts[n]
        p0 = rot(nxt.anchors(1)[1], self.rotation)
        p1 = rot(cur.anchors(0)[1], self.rotation)
        d = (p1 - p0) / np.linalg.norm(p1 - p0)
        nrm = np.array([d[1], -d[0]])      # right-hand normal: positive = towards higher V1 for upward lines

        def dist(q):
            return (np.asarray(q) - p0) @ nrm

        occ = np.zeros(pts.shape[:-1])
        q = dist(pts)
        for k in range(n):
            a, c, b = (rot(z, self.rotation) for z in cur.anchors(2 * k))
            gam = (dist(b) - dist(a)) / self.gf
            u = q - dist(c)
            if abs(gam) < 1e-8:
                # no interdot coupling: dot 1 is charged on the side of higher V1 (rotated: larger x), as for small couplings
                u = u * np.sign(nrm @ rot(np.array([1.0, 0.0]), self.rotation))
                occ = occ + np.where(u > 0, 1.0, np.where(u < 0, 0.0, u))
            elif self.cdf == "sigmoid":
                occ = occ + 0.5 * (1 + np.tanh(u / gam))
            else:
                occ = occ + np.arctan(u / gam) / np.pi + 0.5
        return occ, n - occ


# ---------------------------------------------------------------------------------------------- pixels
def axis_volts(sweep, n):
    return np.linspace(float(sweep[0]), float(sweep[1]), int(n))


def grid(sweep1, sweep2, res):
    """Voltage points in measurement layout: int -> (n, 2), [r1, r2] -> (r2, r1, 2)."""
    if np.ndim(res) == 0 or len(res) == 1:
        n = int(res if np.ndim(res) == 0 else res[0])
        return np.stack([axis_volts(sweep1, n), axis_volts(sweep2, n)], axis=-1)
    x, y = axis_volts(sweep1, res[0]), axis_volts(sweep2, res[1])
    return np.stack(np.meshgrid(x, y), axis=-1)


# ---------------------------------------------------------------------------------------------- sensor
def peak_value(p, mu):
    kind = type(p).__name__
    if "Gaussian" in kind:
        return p.offset + p.height * np.exp(-((mu - p.mu0) / p.sigma) ** 2)
    if "Lorentz" in kind:
        return p.offset + p.height * p.gamma ** 2 / (p.gamma ** 2 + (mu - p.mu0) ** 2)
    raise TypeError(kind)


def glf(x, al, ar, growth, asymmetry, shape, denom=1.0, off=0.0):
    """Generalised logistic function (Richards curve): Q = shape, nu = asymmetry, C = denom."""
    x = np.asarray(x, dtype=float)
    with np.errstate(over="ignore"):
        return al + (ar - al) / (denom + shape * np.exp(-growth * (x - off))) ** (1.0 / asymmetry)


def inv_glf(v, al, ar, growth, asymmetry, shape, denom=1.0, off=0.0):
    return off - np.log((((ar - al) / (v - al)) ** asymmetry - denom) / shape) / growth
