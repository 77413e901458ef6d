"""P29: geometry helpers obey their algebraic identities."""
import numpy as np

from vmon import gen

PID = "P29"
TITLE = "Geometry helpers obey their algebraic identities"
RULE = ("random points, lines (sloped, horizontal, vertical; tuples, lists, arrays, integers and floats), circles and angles over many "
        "orders of magnitude, including exact degenerate inputs; every returned point is checked against the objects it must lie on; "
        "non-trivial = distinct input")
ASSUMPTIONS = ["lines closer to tangency or parallelism than 1e-6 (relative) are only generated exactly degenerate on integer grids",
               "Inputs have the documented types"]
CASES = {"quick": 6000, "thorough": 400000}
REQUIRED = {"rotation_forth_and_back": 1000, "rotation_isometry": 1000, "rotation_direction": 1000, "signed_distance": 1000,
            "below_line": 1000, "line_intersection": 1000, "parallel_refused": 100, "circle_on_both": 300, "circle_none_missed": 500,
            "circle_bad_radius": 100, "pixel_to_volt": 1000, "single_number_is_vertical": 300, "bad_line_refused": 100, "circle_tangent": 50,
            "arguments_unmodified": 1000}


def raises(f, exc=ValueError):
    try:
        return False, f()
    except exc:
        return True, None


def num(rng, x):
    """The number in one of the numeric types."""
    if float(x).is_integer() and rng.random() < 0.7:
        return int(x)
    return [float(x), np.float64(x)][rng.integers(2)]


def line_form(rng, mm, bb):
    k = rng.integers(3)
    return [(mm, bb), [mm, bb], np.array([mm, bb], dtype=float)][k]


def rotations(m, rng):
    from simcats.support_functions import rotate_points
    sc = float(np.exp(gen.u(rng, -8, 8)))
    n = int(rng.integers(1, 30))
    single = rng.random() < 0.25
    pts = rng.normal(size=2 if single else (n, 2)) * sc
    if rng.random() < 0.2:      # whole numbers
        sc = 60.0
        pts = rng.integers(-60, 61, pts.shape).astype([np.int64, np.int32, np.int16][rng.integers(3)])
    ang = float(gen.u(rng, -7, 7)) if rng.random() < 0.8 else float(rng.choice([0, np.pi / 2, np.pi, -np.pi / 4]))
    w = dict(points=pts, angle=ang)
    keep = pts.copy()
    r = rotate_points(pts, ang)
    m.check(np.array_equal(pts, keep), "arguments_unmodified", "points modified", **w)
    if not m.check(r.shape == pts.shape, "rotation_isometry", f"shape {r.shape}", **w):
        return
    z = pts[..., 0] + 1j * pts[..., 1]
    e = z * np.exp(1j * ang)
    m.close(r, np.stack([e.real, e.imag], -1), "rotation_direction", "counter-clockwise rotation", rtol=0, atol=1e-12 * sc * 10, **w)
    m.close(rotate_points(r, -ang), pts, "rotation_forth_and_back", "not the identity", rtol=0, atol=1e-12 * sc * 10, **w)
    if not single and n > 1:
        m.close(np.linalg.norm(r[1:] - r[:-1], axis=1), np.linalg.norm(pts[1:] - pts[:-1], axis=1), "rotation_isometry",
                "distances change", rtol=1e-9, atol=1e-12 * sc * 10, **w)
    else:
        m.close(np.linalg.norm(r), np.linalg.norm(pts), "rotation_isometry", "length changes", **w)
    a2 = float(gen.u(rng, -3, 3))
    m.close(rotate_points(r, a2), rotate_points(pts, ang + a2), "rotation_additive", "angles do not add", rtol=0, atol=1e-11 * sc, **w)
    m.close(rotate_points(pts), rotate_points(pts, np.pi / 4), "rotation_default", "default angle is not 45 degree", **w)


def distances(m, rng):
    from simcats.support_functions import signed_dist_points_line
    sc = float(np.exp(gen.u(rng, -8, 8)))
    n = int(rng.integers(1, 30))
    off = rng.normal(size=2) * sc * 3
    pts = rng.normal(size=(n, 2)) * sc + off
    lp = rng.normal(size=(2, 2)) * sc + off
    k = rng.integers(6)
    if k == 0:
        lp[1, 0] = lp[0, 0]
    elif k == 1:
        lp[1, 1] = lp[0, 1]
    if rng.random() < 0.2:      # whole numbers
        sc, off = 60.0, 0.0
        pts = rng.integers(-60, 61, pts.shape)
        if rng.random() < 0.5:
            lp = rng.integers(-60, 61, (2, 2))
    d = lp[1] - lp[0]
    L = np.linalg.norm(d)
    if L < 1e-3 * sc:
        return
    w = dict(points=pts, line=lp)
    keep = pts.copy(), lp.copy()
    got = signed_dist_points_line(pts, lp)
    m.check(np.array_equal(pts, keep[0]) and np.array_equal(lp, keep[1]), "arguments_unmodified", "", **w)
    # projection: distance vector from the foot of the perpendicular; sign: right-hand side of the direction is positive
    u = d / L
    t = (pts - lp[0]) @ u
    vec = pts - (lp[0] + t[:, None] * u)
    side = np.sign(vec @ np.array([u[1], -u[0]]))
    m.close(got, side * np.linalg.norm(vec, axis=1), "signed_distance", "distance to the right of the line", rtol=1e-7, atol=1e-11 * sc * 10, **w)
    m.close(signed_dist_points_line(pts, lp[::-1]), -np.asarray(got), "signed_distance_antisymmetric", "reversed line", rtol=1e-7, atol=1e-11 * sc * 10, **w)
    on = lp[0] + np.linspace(-2, 3, 7)[:, None] * d
    m.close(signed_dist_points_line(on, lp), np.zeros(7), "points_on_line", "points on the line", atol=1e-11 * sc * 10, **w)


def below(m, rng):
    from simcats.support_functions import is_point_below_line
    sc = float(np.exp(gen.u(rng, -4, 4)))
    x, y = (float(v) for v in rng.normal(size=2) * sc)
    if rng.random() < 0.3:
        b = num(rng, round(float(rng.normal() * sc), int(rng.integers(0, 6))))
        w = dict(point=(x, y), line=b)
        m.check(bool(is_point_below_line((x, y), b)) == (y < b), "below_line", "horizontal line", **w)
        m.check(not is_point_below_line((x, b), b), "point_on_line_not_below", "horizontal line", **w)
        return
    mm, b = float(rng.normal()), float(rng.normal() * sc)
    exact = rng.random() < 0.3
    if exact:
        mm, b, x = (int(v) for v in rng.integers(-9, 9, 3))
        y = mm * x + b + int(rng.integers(-2, 3))
    yl = mm * x + b
    if not exact and abs(y - yl) < 1e-9 * sc:
        return
    m.check(bool(is_point_below_line((x, y), (mm, b))) == (y < yl), "below_line", "sloped line", point=(x, y), line=(mm, b))
    bad = [(1.0, 2.0, 3.0), (1.0,), [1.0, 2.0], "ab", None, np.array([1.0, 2.0])][rng.integers(6)]
    m.check(raises(lambda: is_point_below_line((x, y), bad))[0], "bad_line_refused", f"line {bad!r} accepted", line=repr(bad))


def lines(m, rng):
    from simcats.support_functions import line_line_intersection
    sc = float(np.exp(gen.u(rng, -4, 4)))
    kind = rng.integers(5)
    m1, m2 = (float(v) for v in rng.normal(size=2) * np.exp(gen.u(rng, -2, 2)))
    b1, b2 = (float(v) for v in rng.normal(size=2) * sc)
    if rng.random() < 0.2:
        m1 = 0.0
    if kind in (0, 1):
        if rng.random() < 0.4:      # nearly horizontal or nearly vertical lines
            f = float(np.exp(gen.u(rng, np.log(1e-13), np.log(1e9))))
            m1, m2 = m1 * f, m2 * f
        if abs(m1 - m2) < 1e-3 * max(abs(m1), abs(m2)):
            return
        l1, l2 = line_form(rng, m1, b1), line_form(rng, m2, b2)
        w = dict(line1=l1, line2=l2)
        keep = repr((l1, l2))
        p1 = line_line_intersection(l1, l2)
        m.check(repr((l1, l2)) == keep, "arguments_unmodified", "", **w)
        p2 = line_line_intersection(l2, l1)
        big = max(abs(p1[0]) * max(abs(m1), abs(m2)), abs(b1), abs(b2))
        m.close(p1[1], m1 * p1[0] + b1, "line_intersection", "not on line 1", rtol=1e-9, atol=1e-10 * big, **w)
        m.close(p1[1], m2 * p1[0] + b2, "line_intersection", "not on line 2", rtol=1e-9, atol=1e-10 * big, **w)
        m.close(p1, p2, "line_intersection_symmetric", "depends on the order", rtol=1e-6, atol=1e-9 * max(big, abs(p1[0])), **w)
    elif kind == 2:
        c = num(rng, round(float(rng.normal() * 10), int(rng.integers(0, 5))))
        l = line_form(rng, m1, b1)
        w = dict(line=l, vertical=c)
        for p in (line_line_intersection(l, c), line_line_intersection(c, l)):
            m.close(p, [c, m1 * c + b1], "single_number_is_vertical", "intersection with a vertical line", **w)
    elif kind == 3:
        c = num(rng, round(float(rng.normal() * 10), int(rng.integers(0, 5))))
        other = c if rng.random() < 0.5 else c + 1
        pair = (c, other) if rng.random() < 0.5 else (line_form(rng, m1, b1), line_form(rng, m1, b1 if other == c else b1 + 1))
        m.check(raises(lambda: line_line_intersection(*pair))[0], "parallel_refused", "parallel or equal lines accepted", lines=pair)
    else:
        bad = [(1.0, 2.0, 3.0), (1.0,), [1.0, 2.0, 3.0], np.zeros(3), ()][rng.integers(5)]
        pair = (bad, (m1, b1)) if rng.random() < 0.5 else ((m1, b1), bad)
        m.check(raises(lambda: line_line_intersection(*pair))[0], "bad_line_refused", "accepted", lines=repr(pair))


def circles(m, rng):
    from simcats.support_functions import line_circle_intersection
    sc = float(np.exp(gen.u(rng, -3, 3) if rng.random() < 0.6 else gen.u(rng, -25, 12)))     # volts, but also very small or large units
    r = float(sc * gen.u(rng, 0.1, 1))
    cx, cy = (float(v) for v in rng.normal(size=2) * sc)
    if rng.random() < 0.12:
        bad = -r if rng.random() < 0.5 else 0
        m.check(raises(lambda: line_circle_intersection((1.0, 0.0), (cx, cy), bad))[0], "circle_bad_radius", f"radius {bad} accepted")
        return
    if rng.random() < 0.12:
        # exact tangents on an integer grid
        cx, cy, R = int(rng.integers(-9, 9)), int(rng.integers(-9, 9)), int(rng.integers(1, 9))
        if rng.random() < 0.5:
            line, e = (0, cy + R), (cx, cy + R)
        else:
            line, e = cx - R, (cx - R, cy)
        got = line_circle_intersection(line, (cx, cy), R)
        m.check(len(got) == 1 and np.allclose(got[0], e), "circle_tangent", f"{got} instead of {e}", line=line, centre=(cx, cy), radius=R)
        return
    vert = rng.random() < 0.4
    # distance of the line from the centre in units of the radius
    rel = float(gen.u(rng, 0, 2)) * rng.choice([-1, 1])
    near = rng.random() < 0.15
    if near:
        # almost touching (numbers of similar size, so that rounding is orders of magnitude smaller)
        rel = float((1 + rng.choice([-1, 1]) * 10 ** gen.u(rng, -10, -3)) * rng.choice([-1, 1]))
        cx, cy = (float(v) for v in gen.u(rng, -1, 1, 2) * r)
    elif abs(abs(rel) - 1) < 1e-4:
        return
    if vert:
        line = cx + rel * r
        dist = abs(line - cx)
        line = num(rng, line)
    else:
        mm = float(rng.normal() * np.exp(gen.u(rng, -1, 1)))
        if near:
            mm = float(gen.u(rng, -1, 1))
        if rng.random() < 0.2:
            mm = 0.0
        b = cy - mm * cx + rel * r * np.hypot(1, mm)
        line = (mm, float(b))
    got = line_circle_intersection(line, (cx, cy), r)
    w = dict(line=line, centre=(cx, cy), radius=r)
    e = 2 if abs(rel) < 1 else 0
    m.check(len(got) == e, "circle_none_missed", f"{len(got)} instead of {e} intersections", **w)
    for x, y in got:
        m.close(np.hypot(x - cx, y - cy), r, "circle_on_both", "point not on the circle", rtol=1e-5, **w)
        if vert:
            m.close(x, line, "circle_on_both", "point not on the line", rtol=1e-9, **w)
        else:
            m.close(y, mm * x + b, "circle_on_both", "point not on the line", rtol=1e-9, atol=1e-9 * (abs(mm * x) + abs(b)), **w)
    if len(got) == 2:
        chord = 2 * r * np.sqrt((1 - abs(rel)) * (1 + abs(rel)))
        m.close(np.hypot(got[0][0] - got[1][0], got[0][1] - got[1][1]), chord, "circle_chord", "length of the chord", rtol=1e-4, atol=(1e-4 if near else 1e-6) * r, **w)


def pixels(m, rng):
    from simcats.support_functions import pixel_to_volt_1d
    n = int(rng.integers(1, 500))
    v = rng.normal(size=2) * np.exp(gen.u(rng, -4, 2))
    if rng.random() < 0.1:
        v[1] = v[0]
    form = [v.copy(), list(v), tuple(v)][rng.integers(3)]
    p = int(rng.integers(0, n + 1)) if rng.random() < 0.7 else float(gen.u(rng, -0.5, n + 0.5))
    w = dict(pixel=p, pixel_num=n, limits=v)
    sc = np.abs(v).max()
    m.close(pixel_to_volt_1d(pixel=p, pixel_num=n, volt_limits=form), v[0] * (1 - p / n) + v[1] * p / n, "pixel_to_volt", "not linear", atol=1e-12 * sc * 5, **w)
    m.close(pixel_to_volt_1d(0, n, form), v[0], "pixel_to_volt", "first limit", **w)
    m.close(pixel_to_volt_1d(n, n, form), v[1], "pixel_to_volt", "second limit", atol=1e-12 * sc, **w)


KINDS = (rotations, distances, below, lines, circles, pixels)


def run_case(m, rng, i):
    f = KINDS[i % len(KINDS)]
    m.event(f.__name__)
    for _ in range(6):
        f(m, rng)
    m.distinct(f.__name__, i)
    m.sample(helper=f.__name__)
