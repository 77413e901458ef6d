"""P30: plots show the data at the right voltages."""
import os
import shutil
import tempfile

import numpy as np

from vmon import gen

PID = "P30"
TITLE = "Plots show the data at the right voltages"
RULE = ("1D and 2D data with unique values in all sweep directions, sort options, label options, tick numbers and formats; the drawn "
        "matplotlib artists are read back and every value is looked up at its voltage; non-trivial = distinct plot")
ASSUMPTIONS = ["Agg backend; voltages of the ticks are compared to the printed three decimals",
               "1D sorting is by gate 1 (a fixed gate 1 keeps the measured order)"]
CASES = {"quick": 500, "thorough": 12000}
REQUIRED = {"pixel_at_voltage": 200, "sample_at_voltage": 100, "tick_labels": 400, "labels": 400, "arguments_unmodified": 400, "saved_file": 10,
            "nothing_else_written": 10, "sorted_axes": 200, "shown": 400, "drawn_to_scale": 200}


def run_case(m, rng, i):
    import matplotlib
    matplotlib.use("Agg", force=True)
    from matplotlib import pyplot as plt
    from simcats.support_functions import plot_csd
    two_d = rng.random() < 0.6
    size = [int(rng.integers(2, 40)) if rng.random() < 0.97 else int(rng.integers(40, 400)) for _ in (0, 1)] if two_d else [
        int(rng.integers(2, 80)) if rng.random() < 0.9 else int(np.exp(gen.u(rng, np.log(80), np.log(3000))))] * 2

    def sweep(k):
        # at least 5 mV per pixel: the labels are rounded to 1 mV
        a = float(np.round(gen.u(rng, -1, 1), 3))
        d = max(float(rng.integers(30, 300)) * 1e-2, 5e-3 * size[k])
        return np.array([a, a + d]) if rng.random() < 0.5 else np.array([a + d, a])
    v1, v2 = sweep(0), sweep(1)
    form = rng.integers(3)
    dtype = [float, np.float32, int][rng.integers(3)]
    if two_d:
        r1, r2 = size
        csd = rng.permutation(r1 * r2).reshape(r2, r1).astype(dtype)
    else:
        r1 = size[0]
        csd = rng.permutation(r1).astype(dtype)
        k = rng.integers(4)
        if k == 0:
            v1 = np.full(2, v1[0])
        elif k == 1:
            v2 = np.full(2, v2[0])
    kw = dict(csd=csd, volt_limits_g1=v1, volt_limits_g2=v2)
    opt = {}
    sort = True
    if rng.random() < 0.5:
        sort = opt["sort_volts"] = bool(rng.random() < 0.4)
    if rng.random() < 0.5:
        opt["title"] = "title %d" % rng.integers(100)
    if rng.random() < 0.5:
        opt["sensor_label"] = "signal %d" % rng.integers(100)
    if rng.random() < 0.5:
        opt["gate_labels"] = ["P%d" % rng.integers(9), "Q%d" % rng.integers(9)]
    if rng.random() < 0.5:
        opt["voltage_unit"] = "mV"
    nx = ny = 5
    if rng.random() < 0.5:
        nx = opt["num_xticks"] = int(rng.integers(2, 12))
    if rng.random() < 0.5:
        ny = opt["num_yticks"] = int(rng.integers(2, 12))
    scratch = None
    if i % 20 == 0:
        scratch = tempfile.mkdtemp(prefix="vp30_")
        opt["save_path"] = os.path.join(scratch, "plot." + str(rng.choice(["png", "svg"])))
    w = dict(shape=csd.shape, g1=v1, g2=v2, **{k: v for k, v in opt.items() if k != "save_path"})
    csd = kw["csd"] = gen.layout(rng, csd, 0.4, True)
    keep = csd.copy(), v1.copy(), v2.copy(), repr(opt)
    shown = []
    orig = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    plt.close("all")
    cwd = os.getcwd()
    try:
        if scratch:
            os.chdir(scratch)
        ret = plot_csd(**kw, **opt)
        m.check(np.array_equal(keep[0], csd) and np.array_equal(keep[1], v1) and np.array_equal(keep[2], v2) and keep[3] == repr(opt)
                and csd.dtype == keep[0].dtype, "arguments_unmodified", "an argument was modified", **w)
        m.check(len(shown) == 1 and ret is None, "shown", f"shown {len(shown)} times", **w)
        ax = [a for a in plt.gcf().axes if a.get_label() != "<colorbar>"]
        if not m.check(len(plt.get_fignums()) == 1 and len(ax) == 1, "one_axes", f"{len(plt.get_fignums())} figures, {len(ax)} axes", **w):
            return
        a = ax[0]
        xt, yt = a.get_xticks(), a.get_yticks()
        xl, yl = [t.get_text() for t in a.get_xticklabels()], [t.get_text() for t in a.get_yticklabels()]
        unit = opt.get("voltage_unit", "V")
        gl = opt.get("gate_labels", ["g1", "g2"])
        sl = opt.get("sensor_label", "Sensor signal [a.u.]")
        m.check(a.get_title() == opt.get("title", ""), "labels", f"title {a.get_title()!r}", **w)
        m.check(len(xt) == nx and len(xl) == nx and len(yt) == ny, "tick_count", f"{len(xt)} and {len(yt)} ticks", **w)
        if two_d:
            m.check(a.get_xlabel() == f"{gl[0]} [{unit}]" and a.get_ylabel() == f"{gl[1]} [{unit}]", "labels", f"{a.get_xlabel()!r} {a.get_ylabel()!r}", **w)
            cb = [b for b in plt.gcf().axes if b is not a]
            m.check(len(cb) == 1 and sl in (cb[0].get_ylabel(), cb[0].get_xlabel()), "labels", "colorbar label", **w)
            im = a.get_images()
            if not m.check(len(im) == 1, "one_image", f"{len(im)} images", **w):
                return
            im = im[0]
            arr = np.asarray(im.get_array(), dtype=float)
            if not m.check(arr.shape == csd.shape, "pixel_at_voltage", f"drawn shape {arr.shape}", **w):
                return
            x0, x1, y0, y1 = im.get_extent()
            xlim, ylim = a.get_xlim(), a.get_ylim()
            # centre of array element (row, column) in data coordinates
            xc = x0 + (np.arange(r1) + 0.5) * (x1 - x0) / r1
            yc = y0 + (np.arange(r2) + 0.5) * (y1 - y0) / r2
            if im.origin == "upper":
                yc = yc[::-1] if y0 < y1 else yc
            try:
                xv, yv = [float(t) for t in xl], [float(t) for t in yl]
            except ValueError:
                m.check(False, "tick_labels", f"labels {xl} {yl}", **w)
                return
            # tick positions must be the pixel positions of the voltages: from label to voltage to position
            px = np.polyfit(xt, xv, 1)
            py = np.polyfit(yt, yv, 1)
            vx, vy = np.polyval(px, xc), np.polyval(py, yc)
            m.check(np.abs(np.polyval(px, xt) - xv).max() < 1.1e-3 and np.abs(np.polyval(py, yt) - yv).max() < 1.1e-3, "tick_labels",
                    "ticks are not linear in the voltage", xticks=[xt, xl], yticks=[yt, yl], **w)
            m.check(min(len(t.split(".")[-1]) for t in xl + yl) == 3, "tick_labels", f"{xl}", **w)
            # look up every pixel at its voltage
            e1, e2 = np.linspace(*keep[1], r1), np.linspace(*keep[2], r2)
            ix = np.abs(vx[None, :] - e1[:, None]).argmin(1)
            iy = np.abs(vy[None, :] - e2[:, None]).argmin(1)
            tolx = toly = 2e-3
            m.check(np.abs(vx[ix] - e1).max() < tolx and np.abs(vy[iy] - e2).max() < toly, "pixel_positions",
                    "no pixel is drawn at a measured voltage", x=[vx[ix[:3]], e1[:3]], y=[vy[iy[:3]], e2[:3]], **w)
            m.check(np.array_equal(arr[np.ix_(iy, ix)], keep[0].astype(float)), "pixel_at_voltage", "pixel drawn at the wrong voltage", **w)
            asp = a.get_aspect()
            asp = float(asp) if not isinstance(asp, str) else (1.0 if asp == "equal" else np.nan)
            scale = asp * abs(px[0] / py[0])
            m.check((1 - 1 / r2) * 0.97 - 0.01 < scale < 1.03 / (1 - 1 / r1) + 0.01, "drawn_to_scale", f"a volt is {scale} times as long vertically", **w)
            rising = [np.polyval(px, 1) > np.polyval(px, 0), np.polyval(py, 1) > np.polyval(py, 0)]
            if sort:
                m.check(all(rising) and xlim[0] < xlim[1] and ylim[0] < ylim[1], "sorted_axes", f"not ascending {rising}", **w)
            else:
                m.check(rising == [v1[1] > v1[0], v2[1] > v2[0]], "sorted_axes", "order of the sweep not kept", **w)
            m.check(xlim[0] <= xc.min() <= xlim[1] and xlim[0] <= xc.max() <= xlim[1] and ylim[0] <= yc.min() <= ylim[1]
                    and ylim[0] <= yc.max() <= ylim[1], "all_pixels_visible", f"limits {xlim} {ylim}", **w)
            m.event("plot_2d")
        else:
            m.check(a.get_xlabel() == f"({gl[0]};{gl[1]}) [{unit}]" and a.get_ylabel() == sl, "labels", f"{a.get_xlabel()!r} {a.get_ylabel()!r}", **w)
            ln = a.get_lines()
            if not m.check(len(ln) == 1, "one_line", f"{len(ln)} lines", **w):
                return
            x, y = ln[0].get_xdata(), np.asarray(ln[0].get_ydata(), dtype=float)
            try:
                tv = np.array([[float(q) for q in t.strip("()").split(";")] for t in xl])
            except ValueError:
                m.check(False, "tick_labels", f"labels {xl}", **w)
                return
            p1, p2 = np.polyfit(xt, tv[:, 0], 1), np.polyfit(xt, tv[:, 1], 1)
            m.check(np.abs(np.polyval(p1, xt) - tv[:, 0]).max() < 1.1e-3 and np.abs(np.polyval(p2, xt) - tv[:, 1]).max() < 1.1e-3,
                    "tick_labels", "ticks are not linear in the voltage", xticks=[xt, xl], **w)
            s1, s2 = np.polyval(p1, x), np.polyval(p2, x)
            e1, e2 = np.linspace(*keep[1], r1), np.linspace(*keep[2], r1)
            ix = (np.abs(s1[None] - e1[:, None]) + np.abs(s2[None] - e2[:, None])).argmin(1)
            m.check(np.abs(s1[ix] - e1).max() < 2e-3 and np.abs(s2[ix] - e2).max() < 2e-3, "pixel_positions", "no sample is drawn at a measured voltage", **w)
            m.check(len(y) == r1 and np.array_equal(y[ix], keep[0].astype(float)), "sample_at_voltage", "sample drawn at the wrong voltage", **w)
            if v1[0] != v1[1]:
                up = s1[-1] > s1[0]
                m.check(up if sort else up == (v1[1] > v1[0]), "sorted_axes", "order of the samples", **w)
            m.check(np.isclose(yt[0], csd.min()) and np.isclose(yt[-1], csd.max()), "signal_ticks", f"{yt}", **w)
            m.event("plot_1d")
        if scratch:
            files = os.listdir(scratch)
            name = os.path.basename(opt["save_path"])
            m.check(name in files and os.path.getsize(opt["save_path"]) > 1000, "saved_file", f"files {files}", **w)
            m.check(files == [name], "nothing_else_written", f"files {files}", **w)
    finally:
        plt.show = orig
        plt.close("all")
        os.chdir(cwd)
        if scratch:
            shutil.rmtree(scratch)
    m.distinct(csd, v1, v2, repr(opt))
    m.sample(**w)
