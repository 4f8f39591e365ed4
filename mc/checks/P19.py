"""P19: the displacement found is the displacement of the particles"""
import itertools
from math import sqrt

import numpy as np

from ..common import check, quiet
from ..piving import PIV_CONFIGS, piv_params

LEVEL = "exploration"
RULE = (
    "correlation: all the pairs of basis images of each window shape (the correlation is bilinear, so it is decided for every couple "
    "of windows); displacement: all the positions of a particle x all the integer displacements for each method and shape; search of "
    "peaks: all the positions of 2 or 3 peaks; complete PIV computations: all the integer displacements up to 3 pixels (and sub-pixel "
    "ones) for 18 configurations, fields of rotation and deformation. Non trivial: the displacement is not null."
)
ASSUMPTIONS = ["particles larger than one pixel; displacements smaller than a quarter of the interrogation window"]


def make_correl(method, shape0, shape1=None, **kw):
    from fluidimage.calcul.correl import correlation_classes

    return correlation_classes[method](tuple(shape0), tuple(shape1 or shape0), **kw)


# ------------------------------------------------------------------ correlation


def case_bilinear(rec, method, shape):
    """correl(e_p, e_q) for all the pairs of basis images

    normalized circular correlation of the fluctuations; the displacement (dx, dy) is that of the
    second image relative to the first one"""
    c = make_correl(method, shape)
    ny, nx = shape
    n = ny * nx
    iy0, ix0 = c.get_indices_no_displacement()
    var = 1 - 1 / n  # sum of the square of the fluctuations of a basis image
    for p in itertools.product(range(ny), range(nx)):
        im0 = np.zeros(shape, dtype=np.float32)
        im0[p] = 1
        for q in itertools.product(range(ny), range(nx)):
            im1 = np.zeros(shape, dtype=np.float32)
            im1[q] = 1
            correl, norm = c(im0, im1)
            expected = np.full(shape, -1 / n)
            dy, dx = (q[0] - p[0]), (q[1] - p[1])
            expected[(iy0 - dy) % ny, (ix0 - dx) % nx] += 1
            check(correl.shape == tuple(shape), f"{method} {shape}: shape {correl.shape}", "correl-shape")
            err = abs(correl / norm - expected / var).max()
            check(
                err < 2e-5 * n,
                lambda: f"{method} {shape}: images with one pixel at {p} and {q}: correlation\n{np.round(correl / norm, 3)}\n"
                f"instead of\n{np.round(expected / var, 3)}",
                "correl-values",
            )
            rec.count("evaluations")
    # amplitude and mean do not matter
    rng = np.random.RandomState(0)
    for _ in range(5):
        a, b = rng.rand(2, *shape).astype(np.float32)
        r0, n0 = c(a, b)
        r1, n1 = c(3 * a + 7, 0.25 * b + 2)
        check(abs(r0 / n0 - r1 / n1).max() < 1e-3, f"{method} {shape}: depends on the mean or on the amplitude", "correl-affine")
        r0, n0 = c(a, a)
        check(abs((r0 / n0).max() - 1) < 1e-4, lambda: f"{method} {shape}: maximum {(r0 / n0).max()} for identical images", "correl-norm")
    rec.nontrivial(("bilinear", method, shape))


PARTICLE = np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]], dtype=np.float32)


def put(shape, p, amp=1.0):
    im = np.zeros(shape, dtype=np.float32)
    im[p[0] - 1 : p[0] + 2, p[1] - 1 : p[1] + 2] = PARTICLE * amp
    return im


def dmax_value(dmax, shape):
    return float(dmax[:-1]) / 100 * max(shape) if isinstance(dmax, str) else dmax


def case_particle(rec, method, shape, shape1, kw, quick):
    """one particle at each position, all the displacements"""
    c = make_correl(method, shape, shape1, **kw)
    shape1 = shape1 or shape
    ny, nx = shape
    # centers of the windows: same pixel
    oy, ox = ny // 2 - shape1[0] // 2, nx // 2 - shape1[1] // 2
    if shape1 == shape:
        maxy, maxx = max(ny // 4, 1), max(nx // 4, 1)
    else:
        maxy = maxx = min(ny - shape1[0], nx - shape1[1]) // 2 - 2
    if method == "scipy.signal" and shape1 != shape:
        maxy, maxx = 2, 2
    dmax = kw.get("displacement_max")
    n = 0
    for y1, x1 in itertools.product(range(1, shape1[0] - 1), range(1, shape1[1] - 1)):
        im1 = put(shape1, (y1, x1))
        for dy, dx in itertools.product(range(-maxy, maxy + 1), range(-maxx, maxx + 1)):
            y0, x0 = y1 + oy - dy, x1 + ox - dx
            if not (1 <= y0 < ny - 1 and 1 <= x0 < nx - 1):
                continue
            if dmax is not None and sqrt(dx**2 + dy**2) > dmax_value(dmax, shape) - 1.5:
                continue
            n += 1
            if quick and n % 2:
                continue
            im0 = put(shape, (y0, x0), 2.0)
            correl, norm = c(im0, im1)
            what = f"{method} {shape} {shape1} {kw}: particle at y={y0} x={x0}, displacement dx={dx} dy={dy}"
            try:
                gx, gy, cmax, _ = c.compute_displacements_from_correl(correl, norm=norm)
            except Exception as err:
                check(False, f"{what}: {type(err).__name__} {getattr(err, 'explanation', err)}", "particle-error")
            check((gx, gy) == (dx, dy), lambda: f"{what}: found dx={gx} dy={gy}", "particle-displacement")
            if method in ("fftw", "np.fft", "scipy.signal"):
                check(abs(cmax - 1) < 0.02, lambda: f"{what}: correlation {cmax}", "particle-correl")
            else:
                check(np.isfinite(cmax) and cmax > 0, lambda: f"{what}: correlation {cmax}", "particle-correl")
            try:
                sx, sy = c.apply_subpix(gx, gy, correl)
            except Exception as err:
                check(False, f"{what}: subpix {type(err).__name__} {getattr(err, 'explanation', err)}", "subpix-error")
            # (correl_numpy is divided by the size of the overlap of the windows)
            tol = 0.35 if method == "pythran" else 0.01
            check(abs(sx - dx) < tol and abs(sy - dy) < tol, lambda: f"{what}: after subpix {sx} {sy}", "subpix-symmetric")
            rec.count("evaluations")
            if dx or dy:
                rec.nontrivial(what)


def gaussian(shape, y, x, size):
    yy, xx = np.mgrid[0 : shape[0], 0 : shape[1]]
    return np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / size**2).astype(np.float32)


def case_subpix(rec, method, subpix, nsubpix, size):
    """displacements of fractions of pixel"""
    shape = (16, 20)
    c = make_correl(method, shape, method_subpix=subpix, nsubpix=nsubpix)
    fr = np.arange(-4, 5) / 10
    for iy, ix in itertools.product((-2, 0, 1), (-1, 0, 2)):
        for fy, fx in itertools.product(fr, fr):
            dy, dx = iy + fy, ix + fx
            im0 = gaussian(shape, 7.3, 9.1, size)
            im1 = gaussian(shape, 7.3 + dy, 9.1 + dx, size)
            what = f"{method} {subpix} n={nsubpix} size={size}: displacement dx={dx} dy={dy}"
            correl, norm = c(im0, im1)
            gx, gy, cmax, _ = c.compute_displacements_from_correl(correl, norm=norm)
            check(abs(gx - dx) < 0.61 and abs(gy - dy) < 0.61, lambda: f"{what}: found {gx} {gy}", "subpix-integer")
            before = correl.copy()
            sx, sy = c.apply_subpix(gx, gy, correl)
            tol = {"2d_gaussian2": 0.45, "2d_gaussian": 0.1, "centroid": 0.42, "no_subpix": 0.61}[subpix]
            check(abs(sx - dx) < tol and abs(sy - dy) < tol, lambda: f"{what}: found {sx} {sy} (integer: {gx} {gy})", "subpix")
            if subpix != "no_subpix":
                # towards the right side
                check((sx - gx) * (dx - gx) >= -1e-3 and (sy - gy) * (dy - gy) >= -1e-3, lambda: f"{what}: wrong side {sx} {sy}", "subpix-side")
            rec.count("evaluations")
            rec.nontrivial(what)


def case_peaks(rec, method, shape, radius, i_first, nb_peaks):
    """a spurious peak at the boundary and the right one inside / several peaks"""
    from fluidimage.calcul.errors import PIVError

    ny, nx = shape
    pts = list(itertools.product(range(ny), range(nx)))
    first = pts[i_first]
    boundary = first[0] in (0, ny - 1) or first[1] in (0, nx - 1)
    c = make_correl(method, shape, particle_radius=radius, nb_peaks_to_search=nb_peaks)
    iy0, ix0 = c.get_indices_no_displacement()

    def far(p, q, d):
        return abs(p[0] - q[0]) > d or abs(p[1] - q[1]) > d

    def peak(correl, p, v):
        y, x = p
        correl[max(y - 1, 0) : y + 2, max(x - 1, 0) : x + 2] += v / 2
        correl[p] = v

    for second in pts:
        if second[0] in (0, ny - 1) or second[1] in (0, nx - 1) or not far(first, second, radius + 1):
            continue
        correl = np.zeros(shape, dtype=np.float32)
        peak(correl, second, 3.0)
        peak(correl, first, 5.0)
        what = f"{shape} radius={radius}: peaks at {first} (5) and {second} (3)"
        try:
            gx, gy, cmax, others = c.compute_displacements_from_correl(correl.copy(), norm=10.0)
        except PIVError as err:
            check(False, lambda: f"{what}: {err.explanation}", "peaks-lost")
        best = second if boundary else first
        check((gx, gy) == (ix0 - best[1], iy0 - best[0]), lambda: f"{what}: found {gx, gy} ({ix0 - best[1], iy0 - best[0]} expected)", "peaks-first")
        check(abs(cmax - (0.3 if boundary else 0.5)) < 1e-6, lambda: f"{what}: correlation {cmax}", "peaks-correl")
        rec.count("evaluations")
        if nb_peaks == 1:
            check(others is None, f"{what}: {others}", "peaks-others")
        elif not boundary:
            check(len(others) >= 1, f"{what}: no secondary peak", "peaks-others")
            check(
                others[0][:2] == (ix0 - second[1], iy0 - second[0]) and abs(others[0][2] - 0.3) < 1e-6,
                lambda: f"{what}: secondary peaks {others}",
                "peaks-others",
            )
            rec.nontrivial(what)
        if boundary:
            rec.nontrivial(what)


def case_dmax(rec, method, shape, dmax):
    """displacements larger than displacement_max are not looked for"""
    from fluidimage.calcul.errors import PIVError

    ny, nx = shape
    value = dmax_value(dmax, shape)
    for nb_peaks in (1, 2):
        c = make_correl(method, shape, displacement_max=dmax, particle_radius=1, nb_peaks_to_search=nb_peaks)
        iy0, ix0 = c.get_indices_no_displacement()
        inside = [p for p in itertools.product(range(ny), range(nx)) if sqrt((ix0 - p[1]) ** 2 + (iy0 - p[0]) ** 2) <= value]
        for p in itertools.product(range(ny), range(nx)):
            base = np.zeros(shape, dtype=np.float32)
            base[p] = 5.0
            for q in inside:
                around = [(q[0] + i, q[1] + j) for i in (-1, 0, 1) for j in (-1, 0, 1)]
                if any(a not in inside for a in around) or q[0] in (0, ny - 1) or q[1] in (0, nx - 1) or p in around:
                    continue
                if p in inside:
                    continue
                correl = base.copy()
                correl[q] = 3.0
                what = f"{method} {shape} displacement_max={dmax}: peaks at {p} (5, too far) and {q} (3)"
                before = correl.copy()
                try:
                    gx, gy, cmax, others = c.compute_displacements_from_correl(correl, norm=10.0)
                except PIVError as err:
                    check(False, lambda: f"{what}: {err.explanation}", "dmax-lost")
                check((gx, gy) == (ix0 - q[1], iy0 - q[0]), lambda: f"{what}: found {gx, gy}", "dmax")
                check(gx**2 + gy**2 <= value**2 and abs(cmax - 0.3) < 1e-6, lambda: f"{what}: {gx, gy, cmax}", "dmax")
                for o in others or ():
                    check(o[0] ** 2 + o[1] ** 2 <= value**2, lambda: f"{what}: secondary peak {o}", "dmax-others")
                rec.count("evaluations")
                rec.nontrivial(what)


def case_few(rec, method, shape, dmax, radius, nb_peaks):
    """the first peak is found even if nothing remains for the other peaks"""
    c = make_correl(method, shape, displacement_max=dmax, particle_radius=radius, nb_peaks_to_search=nb_peaks)
    im0 = put(shape, (shape[0] // 2, shape[1] // 2))
    n = int(dmax / 1.42 - 1)
    for dy, dx in itertools.product(range(-n, n + 1), repeat=2):
        im1 = put(shape, (shape[0] // 2 + dy, shape[1] // 2 + dx))
        correl, norm = c(im0, im1)
        what = f"{method} {shape} displacement_max={dmax} radius={radius} nb_peaks={nb_peaks}: displacement {dx} {dy}"
        try:
            gx, gy, cmax, others = c.compute_displacements_from_correl(correl, norm=norm)
        except Exception as err:
            check(False, f"{what}: {type(err).__name__} {getattr(err, 'explanation', err)}", "few-error")
        check((gx, gy) == (dx, dy), lambda: f"{what}: found {gx, gy}", "few")
        check(all(max(abs(o[0] - dx), abs(o[1] - dy)) > radius for o in others), lambda: f"{what}: other peaks {others}", "few-others")
        rec.count("evaluations")
        rec.nontrivial(what)


def case_nothing(rec, method, shape, kw):
    """windows without particles: no displacement is invented"""
    from fluidimage.calcul.errors import PIVError

    c = make_correl(method, shape, **kw)
    const = np.full(shape, 3.0, dtype=np.float32)
    part = put(shape, (shape[0] // 2, shape[1] // 2))
    for name, im0, im1 in (("constant", const, const), ("zero", 0 * const, 0 * const), ("first", const, part), ("second", part, const)):
        correl, norm = c(im0, im1)
        try:
            out = c.compute_displacements_from_correl(correl, norm=norm)
        except PIVError as err:
            gx, gy, cmax = err.results
            check(not cmax > 0.5, lambda: f"{method} {kw} {name}: correlation {cmax}", "nothing")
        else:
            check(not out[2] > 0.2, lambda: f"{method} {shape} {kw} {name}: found {out}", "nothing")
        rec.count("evaluations")


# ------------------------------------------------------------- complete computations

BIG = (56, 64)


def moved(shape, field, seed, density=0.12, size=1.5, dtype=np.uint8):
    """images of particles moved by field(x, y) (-> dx, dy), symmetric in time"""
    rng = np.random.RandomState(seed)
    ny, nx = shape
    m = 8
    n = int(density * (ny + 2 * m) * (nx + 2 * m))
    y0 = rng.uniform(-m, ny + m, n)
    x0 = rng.uniform(-m, nx + m, n)
    a = rng.uniform(0.6, 1, n)
    dx, dy = field(x0, y0)
    ims = []
    y, x = np.mgrid[0:ny, 0:nx]
    for s in (-0.5, 0.5):
        im = np.zeros(shape)
        for xx, yy, aa in zip(x0 + s * dx, y0 + s * dy, a):
            ys, xs = slice(max(int(yy) - 6, 0), max(int(yy) + 7, 0)), slice(max(int(xx) - 6, 0), max(int(xx) + 7, 0))
            im[ys, xs] += aa * np.exp(-((x[ys, xs] - xx) ** 2 + (y[ys, xs] - yy) ** 2) / size**2)
        ims.append(np.clip(130 * im, 0, 255).astype(dtype))
    return tuple(ims)


FIELDS = {
    "rotation": lambda x, y: (-0.06 * (y - 28), 0.06 * (x - 32)),
    "shear-y": lambda x, y: (0.07 * (y - 28), 0 * y),
    "shear-x": lambda x, y: (0 * x + 1, 0.06 * (x - 32)),
    "strain": lambda x, y: (0.05 * (x - 32), -0.05 * (y - 28)),
    "x-only": lambda x, y: (0.05 * (x - 20), 0 * x),
}

E2E = {
    "fftw": (dict(crop=16), 0.45),
    "np.fft": (dict(crop=16, piv0__method_correl="np.fft"), 0.45),
    "odd": (dict(crop=17), 0.45),
    "odd-np": (dict(crop=(15, 19), piv0__method_correl="np.fft"), 0.45),
    "rect": (dict(crop=(14, 20)), 0.45),
    "rect-2": (dict(crop=(24, 16), number=2, multipass__coeff_zoom=[2]), 0.45),
    "two": (dict(crop=24, number=2, multipass__coeff_zoom=[2]), 0.45),
    "three": (dict(crop=24, number=3, multipass__coeff_zoom=[1, 2]), 0.45),
    "three-tps": (dict(crop=16, number=3, multipass__use_tps=True, multipass__subdom_size=20, multipass__coeff_zoom=[1, 1]), 0.45),
    "two-tps-last": (dict(crop=16, number=2, multipass__use_tps="last", multipass__subdom_size=20, multipass__coeff_zoom=[1]), 0.45),
    "signal": (dict(crop=16, piv0__method_correl="scipy.signal"), 0.8),
    "signal-small": (dict(crop=20, piv0__shape_crop_im1=14, piv0__method_correl="scipy.signal"), 0.8),
    "ndimage": (dict(crop=16, piv0__method_correl="scipy.ndimage"), 0.45),
    "centroid": (dict(crop=16, piv0__method_subpix="centroid"), 0.45),
    "2d_gaussian": (dict(crop=16, piv0__method_subpix="2d_gaussian", piv0__nsubpix=1), 0.45),
    "no_subpix": (dict(crop=16, piv0__method_subpix="no_subpix"), 0.65),
    "mask": (dict(crop=16, mask__strcrop="6:50, 5:"), 0.45),
    "mask-2": (dict(crop=24, number=2, multipass__coeff_zoom=2, mask__strcrop="3:, :60"), 0.45),
    "overlap": (dict(crop=16, piv0__grid__overlap=0.25), 0.45),
    "overlap-0": (dict(crop=16, piv0__grid__overlap=0.0), 0.45),
    "dmax": (dict(crop=16, piv0__displacement_max=6), 0.45),
    "dmax-%": (dict(crop=16, piv0__displacement_max="50%", number=2, multipass__coeff_zoom=[1]), 0.45),
    "peaks": (dict(crop=16, piv0__nb_peaks_to_search=2, piv0__particle_radius=3, number=2, multipass__coeff_zoom=[1]), 0.45),
    "fix": (dict(crop=16, fix__threshold_diff_neighbour=2.0, fix__correl_min=0.3), 0.45),
}


def run_piv(kw, ims):
    from fluidimage.piv import Work

    with quiet():
        work = Work(piv_params(**kw))
        return work.calcul({"names": ("a.png", "b.png"), "arrays": ims})


def case_e2e(rec, cfg, name, args, dtype):
    kw, tol = E2E[cfg]
    kw = dict(kw)
    if name == "uniform":
        dx0, dy0 = args
        field = lambda x, y: (dx0 + 0 * x, dy0 + 0 * y)
    else:
        field = FIELDS[name]
        tol = tol + 0.1
    seed = 3
    # (these methods do not remove the mean value of the windows)
    how = dict(density=0.05, size=1.1) if "signal" in cfg or "ndimage" in cfg else {}
    ims = moved(BIG, field, seed, dtype=dtype, **how)
    what = f"{cfg} {name} {args or ''} {np.dtype(dtype).name}"
    res = run_piv(kw, ims)
    last = res.passes[-1]
    ex, ey = field(last.xs, last.ys)
    ok = np.ones(last.xs.shape, dtype=bool)
    ok[[int(k) for k in last.errors]] = False
    ok &= ~np.isnan(last.deltaxs)
    # nearly all the vectors
    check(ok.sum() >= 0.85 * ok.size, lambda: f"{what}: {ok.sum()} good vectors only for {ok.size}: {last.errors}", "e2e-errors")
    err = np.maximum(abs(last.deltaxs - ex), abs(last.deltays - ey))[ok]
    # (some windows, in particular at the boundaries, contain very few particles)
    i = np.arange(ok.size)[ok][err.argmax()]
    best = np.sort(err)[: int(0.92 * err.size)]
    check(
        best.max() < 2 * tol + 0.3 and best.mean() < tol,
        lambda: f"{what}: errors: mean {err.mean():.3f}, max {err.max():.3f} at x={last.xs[i]} y={last.ys[i]}: "
        f"({last.deltaxs[i]:.3f}, {last.deltays[i]:.3f}) instead of ({float(ex[i]):.3f}, {float(ey[i]):.3f})",
        "e2e",
    )
    fx, fy = field(last.ixvecs_final, last.iyvecs_final)
    err = np.maximum(abs(last.deltaxs_final - fx), abs(last.deltays_final - fy))
    err = np.sort(err[~np.isnan(err)])
    err = err[: int(0.92 * err.size)]
    check(err.size >= 0.5 * fx.size and err.mean() < 1.2 * tol + 0.1, lambda: f"{what}: interpolated field: {err.size} values, mean error {err.mean():.3f}", "e2e-final")
    # (the correlation is a correlation)
    cm = last.correls_max[ok]
    if "signal" not in cfg and "ndimage" not in cfg:
        check(np.all((cm > 0.2) & (cm < 1.02)), lambda: f"{what}: correlations {cm.min()} to {cm.max()}", "e2e-correl")
    rec.count("evaluations")
    if name != "uniform" or args != (0, 0):
        rec.nontrivial(what)
    rec.sample(what)
    return err


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def cases(quick):
    out = []
    shapes = [(4, 4), (5, 5), (6, 4), (4, 7), (6, 6)] if quick else [(4, 4), (5, 5), (6, 4), (4, 7), (7, 6), (6, 6), (8, 8), (9, 7), (8, 10)]
    for m in ("fftw", "np.fft"):
        for s in shapes:
            out.append(("bilinear", m, s))
    for m in ("fftw", "np.fft", "scipy.signal", "scipy.ndimage", "pythran"):
        if m == "pythran":
            ss = [(8, 8), (9, 9), (8, 10)] if quick else [(8, 8), (9, 9), (8, 10), (11, 9), (12, 12)]
        else:
            ss = [(8, 8), (9, 9), (8, 12), (11, 8), (12, 12)] if quick else [(8, 8), (9, 9), (8, 12), (11, 8), (12, 12), (13, 16), (16, 16)]
        for s in ss:
            out.append(("particle", m, s, None, {}, quick))
    for s, s1 in (((16, 16), (8, 8)), ((17, 19), (8, 8)), ((16, 18), (9, 8))):
        for m in ("scipy.signal", "pythran"):
            out.append(("particle", m, s, s1, {}, quick))
    for sub, n in (("centroid", 1), ("centroid", 2), ("2d_gaussian", 1), ("2d_gaussian", 2), ("no_subpix", 1)):
        out.append(("particle", "fftw", (12, 12), None, dict(method_subpix=sub, nsubpix=n), quick))
    for d in (3, 4.5, "40%"):
        for m in ("fftw", "np.fft"):
            out.append(("particle", m, (12, 14), None, dict(displacement_max=d), quick))
    out.append(("particle", "pythran", (12, 12), None, dict(displacement_max=4), quick))
    for m in ("fftw",) if quick else ("fftw", "np.fft", "scipy.signal"):
        for sub, n in (("2d_gaussian2", None), ("2d_gaussian", 1), ("centroid", 1), ("no_subpix", 1)):
            for size in (1.2, 1.5) if quick else (1.2, 1.5, 2.0):
                out.append(("subpix", m, sub, n, size))
    for shape in ((9, 11), (12, 10)):
        for i in range(shape[0] * shape[1]):
            for radius in (1, 2, 3):
                for nb in (1, 2, 3):
                    if quick and (i + radius + nb) % 3 and nb > 1 and i > 12:
                        continue
                    out.append(("peaks", "fftw", shape, radius, i, nb))
    for shape in ((8, 8), (9, 7), (8, 10)):
        for d in (2, 2.5, 3, "30%"):
            for m in ("fftw", "np.fft"):
                out.append(("dmax", m, shape, d))
    for m in ("fftw", "np.fft"):
        for s in ((8, 8), (9, 12)):
            for kw in ({}, dict(displacement_max=3), dict(displacement_max=3, nb_peaks_to_search=2), dict(displacement_max=2, nb_peaks_to_search=3, particle_radius=3)):
                out.append(("nothing", m, s, kw))
    for m in ("fftw", "np.fft"):
        for s in ((12, 12), (13, 16)):
            for d in (1.5, 3, 4.3):
                for radius in (1, 2, 3, 5):
                    for nb in (2, 3):
                        out.append(("few", m, s, d, radius, nb))
    disp = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (2, -1), (-3, 2), (3, 3), (0.5, -0.25), (-1.3, 2.6)]
    if not quick:
        disp = list(itertools.product(range(-3, 4), repeat=2)) + [(a, b) for a in (-0.75, -0.3, 0.5, 1.4) for b in (-1.25, 0.25, 0.6)]
    for cfg in E2E:
        for d in disp:
            out.append(("e2e", cfg, "uniform", d, np.uint8))
        for f in FIELDS:
            out.append(("e2e", cfg, f, None, np.uint8))
        for dt in (np.uint16, np.float32, np.int32):
            out.append(("e2e", cfg, "uniform", (2, -1), dt))
    return out


def run(ctx):
    cs = cases(ctx.quick)
    ctx.pmap(case, [c for c in cs if c[0] != "peaks"], timeout=300)
    ctx.pmap(case, [c for c in cs if c[0] == "peaks"], timeout=300, chunk=20)
