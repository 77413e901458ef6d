"""Decoding of dot jumps from observed scans: which shift does every row/column/pixel show?"""
import numpy as np


def volts_1d(v1, v2, n, axis, k=0):
    """Voltages of a 1D scan whose swept coordinate of gate `axis` (1: g1, 0: g2) is lowered by k pixel pitches."""
    a, b = np.linspace(v1[0], v1[1], n), np.linspace(v2[0], v2[1], n)
    if axis == 1:
        a = a - k * abs(v1[1] - v1[0]) / (n - 1)
    else:
        b = b - k * abs(v2[1] - v2[0]) / (n - 1)
    return a, b


def volts_2d(v1, v2, res, axis, k=0):
    a, b = np.linspace(v1[0], v1[1], res[0]), np.linspace(v2[0], v2[1], res[1])
    if axis == 1:
        a = a - k * abs(v1[1] - v1[0]) / (res[0] - 1)
    else:
        b = b - k * abs(v2[1] - v2[0]) / (res[1] - 1)
    return np.meshgrid(a, b)


def decode(values, occ, lab, v1, v2, res, axis, kmax, tol=1e-8):
    """Shift of every line perpendicular to the jump axis (2D) or of every pixel (1D); -1: shows nothing of the diagram.

    values(V1, V2) -> (occupations, labels) of the undistorted diagram."""
    two_d = occ.ndim == 3
    n = (occ.shape[1] if axis == 1 else occ.shape[0]) if two_d else occ.shape[0]
    out = np.full(n, -1)
    for k in range(kmax + 1):
        a, b = volts_2d(v1, v2, res, axis, k) if two_d else volts_1d(v1, v2, occ.shape[0], axis, k)
        o, l = values(a, b)
        ok = (np.abs(o - occ) < tol).all(-1)
        okl = ok & (l == lab) if lab is not None else ok
        if two_d:
            okl = okl.all(axis=0 if axis == 1 else 1)
        out[(out < 0) & okl] = k
        if (out >= 0).all():
            break
    return out


def ascending(shifts, v1, v2, axis):
    """Shifts in the order of ascending voltage of the jump axis."""
    v = v1 if axis == 1 else v2
    return shifts[::-1] if v[0] > v[1] else shifts


def judge_blocks(m, s, prefix="", **w):
    """s: decoded shifts in ascending voltage order."""
    ok = m.check((s >= 0).all(), prefix + "shows_diagram",
                 f"lines {np.nonzero(s < 0)[0][:5].tolist()} of {len(s)} do not show the diagram at a lower voltage", shifts=s, **w)
    if not ok:
        return False
    m.check(s[0] == 0, prefix + "begins_unshifted", f"first line is shifted by {s[0]}", shifts=s, **w)
    bad = (s[1:] > 0) & (s[:-1] > 0) & (s[1:] != s[:-1])
    m.check(not bad.any(), prefix + "alternating_blocks", "two differently shifted blocks touch", shifts=s, **w)
    return True
