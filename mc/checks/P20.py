"""P20: vectors computed on a regular grid covering the images, at the right positions"""
import itertools

import numpy as np

from ..common import check, quiet
from ..piving import arrays, differences, particles, piv_params

LEVEL = "exploration"
RULE = (
    "Grids: all the sizes of images from the size of the window to 4 windows x windows (even, odd, rectangular) x overlaps "
    "x passes x crops. Positions: for each vector of each configuration, one particle at the position of the vector. Crops: all the "
    "forms of params.mask.strcrop with small bounds, the result being compared with the one of images really cropped. Optical "
    "flow: all the displacements, crops and filters. Non trivial: grids with at least two vectors in one direction, crops which are not the whole image."
)
ASSUMPTIONS = ["images up to 64x64", "windows cannot be larger than the cropped images"]


# ---------------------------------------------------------------- grids


def check_1d(p, n, w, overlap, off, what):
    """p: positions along one direction; n: size of the (cropped) image; w: window"""
    step = w - int(np.round(overlap * w))
    p = np.asarray(p)
    check(p.ndim == 1 and p.size >= 1 and p.dtype.kind == "i", lambda: f"{what}: positions {p!r}", "grid")
    q = p - off
    starts, ends = q - w // 2, q + (w - w // 2)
    check(starts[0] == 0, lambda: f"{what}: the first window starts at {starts[0]}", "grid-start")
    check(starts.min() >= 0 and ends.max() <= n, lambda: f"{what}: window out of the image: {list(zip(starts, ends))}", "grid-inside")
    d = np.diff(q)
    check(np.all(d[:-1] == step), lambda: f"{what}: positions {p}, step {step}", "grid-step")
    check(np.all(d > 0) and np.all(d <= step), lambda: f"{what}: positions {p}, step {step}", "grid-step")
    rest = n - ends[-1]
    check(rest <= step // 2.5, lambda: f"{what}: {rest} pixels not covered at the end", "grid-cover")


def case_grid(rec, w, overlap):
    from fluidimage.postproc.piv import get_grid_pixel

    wy, wx = w
    for number, zoom in ((1, None), (2, [2]), (2, 1), (3, [2, 1])):
        if number > 1 and min(w) < 8:
            continue
        kw = dict(crop=w, number=number, piv0__grid__overlap=overlap)
        if zoom is not None:
            kw["multipass__coeff_zoom"] = zoom
        params = piv_params(**kw)
        zooms = [1] + (zoom if isinstance(zoom, list) else [zoom] * (number - 1))
        sizes = []
        sy, sx = wy, wx
        for z in zooms:
            sy, sx = sy / z, sx / z
            sizes.append((int(sy), int(sx)))
        sy = max(1, wy - int(np.round(overlap * wy)))
        sx = max(1, wx - int(np.round(overlap * wx)))
        ns = range(max(w), max(w) + 3 * max(sy, sx) + 2)
        other = max(w) + 5
        if any(z - int(np.round(overlap * z)) < 1 for size in sizes for z in size):
            continue  # refused: the step between the vectors has to be at least one pixel
        for n in ns:
            for shape in ((n, other), (other, n)) if number == 1 else ((n, n),):
                if shape[0] < wy or shape[1] < wx:
                    continue
                for ip in list(range(number)) + [-1]:
                    what = f"window {w} overlap {overlap} zoom {zoom} images {shape} pass {ip}"
                    with quiet():
                        xs, ys = get_grid_pixel(params, shape, ip)
                    check_1d(xs, shape[1], sizes[ip][1], overlap, 0, what + " (x)")
                    check_1d(ys, shape[0], sizes[ip][0], overlap, 0, what + " (y)")
                    rec.count("evaluations")
                    if len(xs) > 1:
                        rec.nontrivial((w, overlap, zoom, shape, ip))
    rec.sample(f"window {w} overlap {overlap}")


def case_crop_grid(rec, w, overlap):
    from fluidimage.postproc.piv import get_grid_pixel

    shape = (30, 34)
    if min(v - int(np.round(overlap * v)) for v in w) < 1:
        return
    for sy, sx in itertools.product(SLICES, SLICES):
        params = piv_params(crop=w, piv0__grid__overlap=overlap, mask__strcrop=f"{sy}, {sx}")
        with quiet():
            xs, ys = get_grid_pixel(params, shape)
        what = f"window {w} overlap {overlap} images {shape} crop '{sy}, {sx}'"
        ry, rx = (range(n)[to_slice(s)] for n, s in zip(shape, (sy, sx)))
        check_1d(xs, len(rx), w[1], overlap, rx[0], what + " (x)")
        check_1d(ys, len(ry), w[0], overlap, ry[0], what + " (y)")
        rec.count("evaluations")
        rec.nontrivial(what)
    rec.sample(f"window {w} overlap {overlap}")


SLICES = (":", "3:", ":27", "2:29", "0:", ":-4", "5:-2", "1:100", "0:28")


def to_slice(s):
    return slice(*(int(a) if a else None for a in s.split(":")))


# ---------------------------------------------------------------- positions


def case_position(rec, name, kw, shape):
    """one particle at the position of each vector"""
    from fluidimage.piv import Work

    params = piv_params(fix__threshold_diff_neighbour=None, fix__correl_min=-1, **kw)
    off = (0, 0)
    if params.mask.strcrop:
        off = [to_slice(s.strip()).start or 0 for s in params.mask.strcrop.split(",")]
    w = params.piv0.shape_crop_im0
    w = (w, w) if isinstance(w, int) else w
    y, x = np.mgrid[0 : shape[0], 0 : shape[1]]

    def image(px, py):
        return np.round(200 * np.exp(-((x - px) ** 2 + (y - py) ** 2) / 2.0)).astype(np.uint8)

    with quiet():
        work = Work(params)
        r = work.calcul({"names": ("a.png", "b.png"), "arrays": (image(off[1] + 8, off[0] + 7), image(off[1] + 8, off[0] + 7))}).passes[-1]
    pos = list(zip(r.xs.tolist(), r.ys.tolist()))
    check(len(set(pos)) == len(pos), f"{name}: positions {pos}", "pos")
    nx, ny = len(set(r.xs)), len(set(r.ys))
    check(nx * ny == len(pos), f"{name}: positions {pos} are not on a grid", "pos")
    check(pos == [(a, b) for b in sorted(set(r.ys)) for a in sorted(set(r.xs))], f"{name}: order of the vectors {pos}", "pos")
    moves = ((1, 0), (0, 1)) if min(w) < 12 else ((2, 0), (0, 2), (-1, 1))
    for i, (px, py) in enumerate(pos):
        for dx, dy in moves:
            with quiet():
                r = work.calcul({"names": ("a.png", "b.png"), "arrays": (image(px, py), image(px + dx, py + dy))}).passes[-1]
            check(pos == list(zip(r.xs.tolist(), r.ys.tolist())), f"{name}: positions modified", "pos")
            what = f"{name}: particle at {px, py} moved by {dx, dy}"
            got = (r.deltaxs[i], r.deltays[i])
            check(abs(got[0] - dx) < 0.5 and abs(got[1] - dy) < 0.5, lambda: f"{what}: vector at this position: {got} ({r.errors.get(i)})", "pos-vector")
            for j, (qx, qy) in enumerate(pos):
                # far from the particle: nothing in the window
                if abs(qx - px) > w[1] // 2 + 8 or abs(qy - py) > w[0] // 2 + 8:
                    bad = np.isnan(r.deltaxs[j]) or (r.deltaxs[j] == 0 and r.deltays[j] == 0) or j in r.errors or r.correls_max[j] < 0.1
                    check(bad, lambda: f"{what}: displacement {r.deltaxs[j], r.deltays[j]} (correlation {r.correls_max[j]}) measured at {qx, qy}", "pos-other")
            rec.count("evaluations")
            rec.nontrivial((name, i, dx, dy))
    rec.sample(f"{name}: {len(pos)} vectors")


POSITIONS = {
    "single": (dict(crop=16), (16, 16)),
    "row": (dict(crop=16, piv0__grid__overlap=0.0), (16, 52)),
    "column-mask": (dict(crop=(14, 16), mask__strcrop="3:, 2:18", piv0__grid__overlap=0.0), (40, 20)),
    "square": (dict(crop=16, piv0__grid__overlap=0.0), (40, 52)),
    "overlap": (dict(crop=16, piv0__grid__overlap=0.5), (40, 44)),
    "odd": (dict(crop=15, piv0__grid__overlap=0.2), (40, 44)),
    "rect": (dict(crop=(12, 18), piv0__grid__overlap=0.0), (40, 60)),
    "rect2": (dict(crop=(18, 12), piv0__grid__overlap=0.25), (48, 40)),
    "mask": (dict(crop=16, mask__strcrop="5:, 3:40", piv0__grid__overlap=0.0), (45, 56)),
    "mask-rect": (dict(crop=(12, 16), mask__strcrop="0:39, 7:", piv0__grid__overlap=0.3), (41, 50)),
    "signal": (dict(crop=14, piv0__method_correl="scipy.signal", piv0__shape_crop_im1=10, piv0__grid__overlap=0.0), (40, 44)),
    "ndimage": (dict(crop=14, piv0__method_correl="scipy.ndimage", piv0__grid__overlap=0.0), (40, 44)),
    "pythran": (dict(crop=14, piv0__method_correl="pythran", piv0__displacement_max=5, piv0__grid__overlap=0.0), (34, 40)),
}


def case_passes(rec, d, name, kw, shape):
    """uniform displacement: positions of the vectors of all the passes"""
    from fluidimage.piv import Work
    from fluidimage.postproc.piv import get_grid_pixel

    dx, dy = d
    big = particles((shape[0] + 40, shape[1] + 40), 7, density=0.08).astype(np.uint8)
    a = big[20 : 20 + shape[0], 20 : 20 + shape[1]].copy()
    b = big[20 - dy : 20 - dy + shape[0], 20 - dx : 20 - dx + shape[1]].copy()
    params = piv_params(number=2, **kw)
    off, size = (0, 0), shape
    if params.mask.strcrop:
        sl = [to_slice(s.strip()) for s in params.mask.strcrop.split(",")]
        off = [t.start or 0 for t in sl]
        size = [len(range(n)[t]) for n, t in zip(shape, sl)]
    with quiet():
        passes = Work(params).calcul({"names": ("a.png", "b.png"), "arrays": (a, b)}).passes
    for ip, r in enumerate(passes):
        with quiet():
            gx, gy = get_grid_pixel(params, shape, ip)
        gx, gy = np.meshgrid(gx, gy)
        what = f"{name}, displacement {d}, pass {ip}"
        check(len(r.xs) == gx.size, f"{what}: {len(r.xs)} vectors, {gx.size} points in the grid", "passes")
        if ip == 0:
            check(np.array_equal(r.xs, gx.ravel()) and np.array_equal(r.ys, gy.ravel()), f"{what}: positions {r.xs} {r.ys}", "passes")
            continue
        good = 0
        for i in range(gx.size):
            g = gx.flat[i] - off[1], gy.flat[i] - off[0]
            p = r.xs[i] - off[1], r.ys[i] - off[0]
            v = r.deltaxs[i], r.deltays[i]
            if not np.isfinite(v).all() or abs(v[0] - dx) > 0.8 or abs(v[1] - dy) > 0.8:
                continue
            good += 1
            # the windows are centred on the point, except if one of them would be out of the image
            m = max(abs(dx), abs(dy)) // 2 + 2
            inside = all(m <= g[k] <= size[1 - k] - m for k in (0, 1))
            tol = [0.5, 0.5] if inside else [abs(dx) / 2 + 0.5, abs(dy) / 2 + 0.5]
            check(all(abs(p[k] - g[k]) <= tol[k] for k in (0, 1)), f"{what}: vector of the point {g} of the grid at {p}", "passes")
            check(all(0 <= p[k] <= size[1 - k] for k in (0, 1)), f"{what}: vector at {p}, out of the image", "passes")
        check(good >= gx.size // 2, f"{what}: only {good} vectors over {gx.size} close to the displacement", "passes")
        rec.nontrivial((what, ip))
    rec.count("evaluations")
    rec.sample(what)


PASSES = {
    "zoom": (dict(crop=16, multipass__coeff_zoom=[2]), (44, 52)),
    "same": (dict(crop=16, multipass__coeff_zoom=[1], piv0__grid__overlap=0.3), (44, 40)),
    "mask": (dict(crop=16, multipass__coeff_zoom=[2], mask__strcrop="3:45, 5:"), (50, 52)),
}


# ---------------------------------------------------------------- crops


def result_arrays(res):
    out = {}
    for i, r in enumerate(res.passes):
        out.update({f"{i}{k}": v for k, v in arrays(r).items() if "correls[" not in k})
    return out


def case_crop(rec, name, kw, number):
    """the result with a crop is the one of images really cropped, at shifted positions"""
    from fluidimage.piv import Work

    shape = (36, 40)
    a = particles(shape, 3).astype(np.uint8)
    b = particles(shape, 3, shift=(1, -2)).astype(np.uint8)
    shifted = ("xs", "ys", "ixvecs_approx", "iyvecs_approx", "ixvecs_final", "iyvecs_final", "xs_smooth", "ys_smooth")
    for sy, sx in itertools.product((":", "3:", ":-4", "5:33", "1:100"), repeat=2):
        crop = f"{sy}, {sx}"
        sl = (to_slice(sy), to_slice(sx))
        y0, x0 = sl[0].start or 0, sl[1].start or 0
        out = []
        for cropped in (True, False):
            params = piv_params(number=number, **kw)
            arrs = (a[sl].copy(), b[sl].copy()) if cropped else (a.copy(), b.copy())
            if not cropped:
                params.mask.strcrop = crop
            with quiet():
                out.append(Work(params).calcul({"names": ("a.png", "b.png"), "arrays": arrs}))
        ref, got = map(result_arrays, out)
        for k in list(ref):
            base = k.rsplit(".", 1)[-1]
            if base in shifted:
                ref[k] = ref[k] + (x0 if "x" in base.split("vecs")[0] else y0)
        diff = differences(ref, got, rtol=1e-4, atol=1e-4)
        check(diff is None, lambda: f"{name}, crop '{crop}': not the result of the cropped images: {diff}", "crop")
        rec.count("evaluations")
        if crop != ":, :":
            rec.nontrivial((name, crop))
    rec.sample(f"{name} {len(ref)} arrays")


CROPS = {
    "one": (dict(crop=12), 1),
    "two": (dict(crop=16, multipass__coeff_zoom=[2]), 2),
    "tps": (dict(crop=12, multipass__use_tps=True, multipass__subdom_size=20), 2),
    "rect": (dict(crop=(10, 14), piv0__grid__overlap=0.2), 1),
}


def case_crop_form(rec, crop, key):
    """crops starting from the end of the images or with a step"""
    from fluidimage.piv import Work

    shape = (36, 40)
    a = particles(shape, 3).astype(np.uint8)
    b = particles(shape, 3, shift=(1, -2)).astype(np.uint8)
    with quiet():
        r = Work(piv_params(crop=12, mask__strcrop=crop)).calcul({"names": ("a.png", "b.png"), "arrays": (a, b)}).passes[0]
    ry, rx = (range(n)[slice(*(int(i) if i else None for i in s.strip().split(":")))] for n, s in zip(shape, crop.split(",")))
    c = Work(piv_params(crop=12)).calcul({"names": ("a.png", "b.png"), "arrays": (a[slice_(ry), slice_(rx)], b[slice_(ry), slice_(rx)])}).passes[0]
    xs, ys = np.array(rx)[c.xs], np.array(ry)[c.ys]
    rec.count("evaluations")
    rec.nontrivial(crop)
    check(np.array_equal(r.xs, xs) and np.array_equal(r.ys, ys), lambda: f"crop '{crop}': positions {r.xs} {r.ys} instead of {xs} {ys}", key)


def slice_(r):
    return slice(r.start, r.stop, r.step)


# ---------------------------------------------------------------- optical flow


def case_flow(rec, d):
    from fluidimage.optical_flow import Work

    dx, dy = d
    shape = (64, 64)
    big = particles((96, 96), 5, density=0.03, size=2.0).astype(np.uint8)
    a = big[16 : 16 + 64, 16 : 16 + 64].copy()
    b = big[16 - dy : 80 - dy, 16 - dx : 80 - dx].copy()

    def compute(crop=None, vmin=None, vmax=None, arrs=(a, b)):
        params = Work.create_default_params()
        params.mask.strcrop = crop
        params.filters.displacement_min = vmin
        params.filters.displacement_max = vmax
        with quiet():
            r = Work(params).calcul({"names": ("a.png", "b.png"), "arrays": tuple(x.copy() for x in arrs)})
        return np.stack([r.xs, r.ys, r.deltaxs, r.deltays], axis=1)

    ref = compute()
    check(len(ref) >= 10, f"optical flow {d}: {len(ref)} vectors", "flow")
    good = (abs(ref[:, 2] - dx) < 0.35) & (abs(ref[:, 3] - dy) < 0.35)
    check(good.mean() > 0.8, lambda: f"optical flow, displacement {d}: {ref[:, 2:]}", "flow")
    check((ref[:, :2] >= 0).all() and (ref[:, 0] < shape[1]).all() and (ref[:, 1] < shape[0]).all(), f"optical flow {d}: positions", "flow")
    norm = np.hypot(ref[:, 2], ref[:, 3])
    for vmin, vmax in itertools.product((None, 0.5, 1.5, 2.5), (None, 1.2, 2.2, 3.5)):
        if any(v is not None and (abs(norm - v) < 1e-3).any() for v in (vmin, vmax)):
            continue
        keep = np.ones(len(ref), dtype=bool)
        if vmin is not None:
            keep &= norm > vmin
        if vmax is not None:
            keep &= norm < vmax
        what = f"optical flow {d} displacement_min={vmin} displacement_max={vmax}"
        if not keep.any():
            continue
        got = compute(None, vmin, vmax)
        check(got.shape == ref[keep].shape and np.allclose(got, ref[keep], atol=1e-4), lambda: f"{what}: {len(got)} vectors instead of {keep.sum()} (norms {norm})", "flow-filter")
        rec.count("evaluations")
        rec.nontrivial(what)
    for sy, sx in itertools.product((":", "4:", ":57", "6:62"), repeat=2):
        sl = to_slice(sy), to_slice(sx)
        got = compute(f"{sy}, {sx}")
        exp = compute(arrs=(a[sl], b[sl]))
        exp = exp + np.array([sl[1].start or 0, sl[0].start or 0, 0, 0])
        check(got.shape == exp.shape and np.allclose(got, exp, atol=1e-4), lambda: f"optical flow {d} crop '{sy}, {sx}': other vectors than with cropped images", "flow-crop")
        rec.count("evaluations")
        rec.nontrivial((d, sy, sx))
    rec.sample(f"optical flow {d}: {len(ref)} vectors")


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    out = []
    windows = [(8, 8), (9, 9), (16, 16), (15, 15), (8, 14), (15, 10)]
    overlaps = (0.0, 0.25, 0.5, 0.7)
    if not ctx.quick:
        windows += [(1, 1), (4, 4), (5, 7), (12, 12), (13, 13), (20, 20), (24, 11), (32, 32)]
        overlaps += (0.1, 0.3, 1 / 3, 0.45, 0.6, 0.9)
    for w in windows:
        for o in overlaps:
            out.append(("grid", w, o))
            if max(w) <= 20:
                out.append(("crop_grid", w, o))
    for name, (kw, shape) in POSITIONS.items():
        out.append(("position", name, kw, shape))
    r = (-5, -2, 0, 3, 4) if ctx.quick else range(-6, 7)
    for name, (kw, shape) in PASSES.items():
        for d in itertools.product(r, r):
            out.append(("passes", d, name, kw, shape))
    for name, (kw, number) in CROPS.items():
        out.append(("crop", name, kw, number))
    for crop in ("-30:, :", ":, -30:", "-30:-2, 2:"):
        out.append(("crop_form", crop, "strcrop-negative"))
    for crop in ("::2, :", ":, 1::2"):
        out.append(("crop_form", crop, "strcrop-step"))
    r = (-2, 0, 1, 3) if ctx.quick else range(-3, 4)
    for d in itertools.product(r, r):
        out.append(("flow", d))
    ctx.pmap(case, out, timeout=600, chunk=1)
