"""P23: interpolation of the displacements"""
import itertools

import numpy as np

from ..common import check, quiet
from ..piving import piv_params

LEVEL = "exploration"
RULE = (
    "all the patterns of missing vectors of grids of up to 12 (quick) or 16 vectors x fields x sizes of the TPS subdomains x "
    "smoothings, for the interpolation functions and for the interpolation of the PIV works, against independent oracles "
    "(linear fields are reproduced; scipy RBFInterpolator). Non trivial: at least one vector is missing."
)
ASSUMPTIONS = [
    "the values extrapolated by the thin plate splines outside of the extended subdomains are nan",
    "scipy.interpolate.RBFInterpolator is correct",
]

LINEAR = {"const": (1.5, 0, 0), "x": (0.5, 0.03, 0), "y": (-1, 0, 0.04), "xy": (0.2, -0.05, 0.02)}


def lin(coefs, x, y):
    return coefs[0] + coefs[1] * np.asarray(x, float) + coefs[2] * np.asarray(y, float)


def quad(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return 1 + 0.002 * (x - 20) ** 2 - 0.003 * (y - 15) * (x - 10) + 0.3 * np.sin(x / 7) * np.cos(y / 9)


def grid(shape, dx=8, dy=8, x0=8, y0=8, irregular=False):
    ny, nx = shape
    x = x0 + dx * np.arange(nx)
    y = y0 + dy * np.arange(ny)
    x, y = (a.ravel().astype(float) for a in np.meshgrid(x, y))
    if irregular:
        # as the positions of the vectors of the second pass
        n = np.arange(x.size)
        x = x + (n * 7 % 5 - 2) * 0.5
        y = y + (n * 11 % 7 - 3) * 0.5
    return x, y


def masks(n, quick_max=None):
    for bits in range(2**n):
        yield np.array([not (bits >> i) & 1 for i in range(n)])


def rank3(x, y):
    return x.size >= 3 and np.linalg.matrix_rank(np.vstack([np.ones_like(x), x, y])) == 3


# ---------------------------------------------------------------- griddata


def case_griddata(rec, shape, part, nparts, irregular):
    from scipy.spatial import Delaunay

    from fluidimage.calcul.interpolate.griddata import griddata

    x, y = grid(shape, irregular=irregular)
    xn = np.arange(2, int(x.max()) + 7, 5)
    yn = np.arange(3, int(y.max()) + 7, 4)
    XN, YN = (a.ravel() for a in np.meshgrid(xn, yn))
    for k, m in enumerate(masks(x.size)):
        if k % nparts != part or not m.any():
            continue
        c = np.vstack([x[m], y[m]])
        full = rank3(*c)
        for name, coefs in LINEAR.items():
            values = lin(coefs, *c)
            try:
                got = griddata(c, values, (xn, yn))
            except Exception as err:
                check(False, f"griddata {c.tolist()}: {type(err).__name__} {str(err)[:80]}", "griddata-error")
            what = lambda: f"griddata ({name}) from x={c[0]} y={c[1]}"
            check(got.shape == (XN.size,) and not np.isnan(got).any(), lambda: f"{what()}: {got}", "griddata-nan")
            exp = lin(coefs, XN, YN)
            inside = np.zeros(XN.size, bool)
            if full:
                inside = Delaunay(c.T).find_simplex(np.vstack([XN, YN]).T) >= 0
                check(
                    np.allclose(got[inside], exp[inside], atol=1e-6),
                    lambda: f"{what()}: inside: {got[inside]} instead of {exp[inside]}",
                    "griddata-linear",
                )
            d2 = (XN[:, None] - c[0]) ** 2 + (YN[:, None] - c[1]) ** 2
            near = d2 <= d2.min(axis=1, keepdims=True) + 1e-9
            v = np.where(near, values, np.nan)
            hull = np.full(XN.size, False)
            ok = np.nanmin(abs(v - got[:, None]), axis=1) < 1e-6
            ok |= inside | (abs(got - exp) < 1e-6 if full else False)
            check(ok.all(), lambda: f"{what()}: outside: {got[~ok]} at x={XN[~ok]} y={YN[~ok]} (not the nearest value)", "griddata-nearest")
            rec.count("evaluations")
        if not m.all():
            rec.nontrivial(("griddata", shape, irregular, k))


# ---------------------------------------------------------------- thin plate splines


def tps_cls():
    from fluidimage.calcul.interpolate.thin_plate_spline_subdom import ThinPlateSplineSubdom

    return ThinPlateSplineSubdom


def run_tps(c, values, new, subdom, smooth, threshold=None):
    """c, new: (x, y)"""
    with quiet():
        tps = tps_cls()(np.vstack([c[1], c[0]]), subdom, smooth, threshold=threshold, percent_buffer_area=20)
        v = values.copy()
        smoothed, weights, summary = tps.compute_tps_weights_subdom(v)
        tps.init_with_new_positions(np.vstack([new[1], new[0]]))
        with np.errstate(all="ignore"):
            out = tps.interpolate(weights)
    return smoothed, out, summary, v, tps


def case_tps(rec, shape, part, nparts, subdom, smooth, irregular):
    """linear fields are reproduced, for all the patterns of missing vectors"""
    x, y = grid(shape, dx=9, irregular=irregular)
    XN, YN = (a.ravel() for a in np.meshgrid(np.arange(6, int(x.max()) + 3, 5), np.arange(6, int(y.max()) + 3, 4)))
    for k, m in enumerate(masks(x.size)):
        if k % nparts != part or not m.any():
            continue
        c = (x[m], y[m])
        coefs = list(LINEAR.values())[k // nparts % len(LINEAR)]
        values = lin(coefs, *c)
        what = lambda: f"TPS subdom_size={subdom} smoothing={smooth} linear field from x={c[0]} y={c[1]}"
        try:
            smoothed, out, summary, v, tps = run_tps(c, values, (XN, YN), subdom, smooth, threshold=1.5)
        except np.linalg.LinAlgError:
            # only if the vectors of one subdomain are aligned
            check(not rank3(*c) or subdom < 100, what, "tps-linalg")
            rec.count("evaluations")
            continue
        except Exception as err:
            check(False, lambda: f"{what()}: {type(err).__name__} {err}", "tps-error")
        check(rank3(*c), lambda: f"{what()}: result for aligned vectors", "tps-aligned")
        check(np.allclose(smoothed, values, atol=1e-6), lambda: f"{what()}: smoothed {smoothed} instead of {values}", "tps-smoothed")
        check(np.array_equal(v, values), lambda: f"{what()}: input modified", "tps-input")
        exp = lin(coefs, XN, YN)
        ok = ~np.isnan(out)
        check(np.allclose(out[ok], exp[ok], atol=1e-6), lambda: f"{what()}: {out[ok]} instead of {exp[ok]}", "tps-linear")
        # in the rectangle of the vectors
        inside = (XN >= c[0].min()) & (XN <= c[0].max()) & (YN >= c[1].min()) & (YN <= c[1].max())
        check(ok[inside].all(), lambda: f"{what()}: no value at x={XN[inside & ~ok]} y={YN[inside & ~ok]}", "tps-inside")
        check(summary["nb_fixed_vectors_tot"] == 0, lambda: f"{what()}: {summary}", "tps-erratic")
        rec.count("evaluations")
        if not m.all():
            rec.nontrivial(("tps", shape, subdom, smooth, irregular, k))


def case_rbf(rec, shape, irregular, part, nparts):
    """other fields, against scipy"""
    from scipy.interpolate import RBFInterpolator

    from fluidimage.calcul.interpolate.thin_plate_spline import ThinPlateSpline, compute_tps_weights

    x, y = grid(shape, dx=9, irregular=irregular)
    new = grid((7, 6), 6, 5, 3, 4)
    for k, m in enumerate(masks(x.size)):
        if k % nparts != part or not rank3(x[m], y[m]):
            continue
        c = np.vstack([y[m], x[m]])
        values = quad(x[m], y[m])
        smooth = (0, 0.5, 5.0, 100.0)[k // nparts % 4]
        what = lambda: f"TPS smoothing={smooth} from x={c[1]} y={c[0]}"
        smoothed, weights = compute_tps_weights(c, values, smooth)
        rbf = RBFInterpolator(c.T, values, kernel="thin_plate_spline", smoothing=smooth, degree=1)
        exp = rbf(c.T)
        check(np.allclose(smoothed, exp, atol=1e-5), lambda: f"{what()}: smoothed {smoothed} instead of {exp}", "rbf-smoothed")
        if smooth == 0:
            check(np.allclose(smoothed, values, atol=1e-6), lambda: f"{what()}: {smoothed} instead of {values}", "rbf-values")
        p = np.vstack([new[1], new[0]])
        tps = ThinPlateSpline(p, c)
        got = tps.compute_field(weights)
        exp = rbf(p.T)
        check(np.allclose(got, exp, atol=1e-5), lambda: f"{what()}: {got} instead of {exp}", "rbf-new")
        gx, gy = tps.compute_gradient(weights)
        h = 1e-3
        ex = (rbf((p + [[0], [h]]).T) - rbf((p - [[0], [h]]).T)) / (2 * h)
        ey = (rbf((p + [[h], [0]]).T) - rbf((p - [[h], [0]]).T)) / (2 * h)
        check(np.allclose(gx, ex, atol=1e-4) and np.allclose(gy, ey, atol=1e-4), lambda: f"{what()}: gradients {gx} {gy} instead of {ex} {ey}", "rbf-gradient")
        # with the class using subdomains (only one)
        s1, out, summary, _, tps = run_tps((x[m], y[m]), values, new, 100, 0.0)
        check(np.allclose(s1, values, atol=1e-6), lambda: f"{what()}: subdomains: {s1} instead of {values}", "rbf-subdom")
        exp = RBFInterpolator(c.T, values, kernel="thin_plate_spline", smoothing=0, degree=1)(p.T)
        ok = ~np.isnan(out)
        check(np.allclose(out[ok], exp[ok], atol=1e-5), lambda: f"{what()}: subdomains: {out} instead of {exp}", "rbf-subdom-new")
        rec.count("evaluations")
        if not m.all():
            rec.nontrivial(("rbf", shape, irregular, k))


def case_subdom(rec, shape, subdom, smooth, irregular):
    """many vectors and subdomains: close to the field, symmetries"""
    x, y = grid(shape, irregular=irregular)
    values = quad(x, y)
    XN, YN = (a.ravel() for a in np.meshgrid(np.arange(8, int(x.max()), 3), np.arange(8, int(y.max()), 3)))
    what = f"TPS {shape} subdom_size={subdom} smoothing={smooth}"
    try:
        smoothed, out, summary, v, tps = run_tps((x, y), values, (XN, YN), subdom, smooth, threshold=None)
    except np.linalg.LinAlgError:
        check(subdom < 9, what, "subdom-linalg")
        return
    check(not np.isnan(out).any(), f"{what}: nan", "subdom-nan")
    tol = 0.25 if smooth == 0 else 1.0
    err = abs(out - quad(XN, YN))
    check(err.max() < tol, f"{what}: error {err.max()}", "subdom-field")
    if smooth == 0:
        check(np.allclose(smoothed, values, atol=1e-6), f"{what}: values at the centers: {abs(smoothed - values).max()}", "subdom-centers")
    # translation
    s2, o2, *_ = run_tps((x + 100, y + 37), values, (XN + 100, YN + 37), subdom, smooth)
    check(np.allclose(s2, smoothed, atol=1e-5) and np.allclose(o2, out, atol=1e-5), f"{what}: depends on the origin", "subdom-translation")
    # linear in the values
    s3, o3, *_ = run_tps((x, y), 2 * values + 1, (XN, YN), subdom, smooth)
    check(np.allclose(s3, 2 * smoothed + 1, atol=1e-5) and np.allclose(o3, 2 * out + 1, atol=1e-5), f"{what}: not linear", "subdom-linear")
    # order of the vectors
    perm = np.random.RandomState(0).permutation(x.size)
    s4, o4, *_ = run_tps((x[perm], y[perm]), values[perm], (XN, YN), subdom, smooth)
    check(np.allclose(s4, smoothed[perm], atol=1e-5) and np.allclose(o4, out, atol=1e-5), f"{what}: depends on the order", "subdom-order")
    # one erratic vector at each position
    for i in range(0, x.size, 1 if x.size < 50 else 7):
        v5 = values.copy()
        v5[i] += 10
        s5, o5, summary, w5, _ = run_tps((x, y), v5, (XN, YN), subdom, 30.0, threshold=1.5)
        ref, oref, *_ = run_tps((x, y), values, (XN, YN), subdom, 30.0, threshold=1.5)
        check(np.array_equal(w5, v5), f"{what}: values modified", "subdom-input")
        border = x[i] in (x.min(), x.max()) or y[i] in (y.min(), y.max())
        if irregular or border or subdom < 16:
            continue
        check(summary["nb_fixed_vectors_tot"] >= 1, f"{what}: erratic vector {i} not detected {summary}", "subdom-erratic")
        check(abs(s5 - ref).max() < 5.5, f"{what}: erratic vector {i}: {abs(s5 - ref).max()}", "subdom-erratic")
        rec.count("evaluations")
    rec.count("evaluations")
    rec.nontrivial((what, irregular))


# ---------------------------------------------------------------- works


def case_work(rec, cfg, kw, part, nparts, last):
    """interpolation of a PIV work for all the patterns of missing vectors"""
    from fluidimage.data_objects.piv import HeavyPIVResults
    from fluidimage.works.piv import WorkPIV
    from fluidimage.works.piv.singlepass import InterpError

    params = piv_params(**kw)
    work = WorkPIV(params)
    imshape = (40, 50)

    class Couple:
        name = "a-b"

    ox = oy = 0
    crop = imshape
    if params.mask.strcrop:
        oy, ox = 6, 4
        crop = (34, 46)
    work._prepare_with_image(imshape=crop)
    piv = work.works_piv[-1] if not last else work.works_piv[-1]
    src = work.works_piv[0]
    xs, ys = (a.ravel() for a in np.meshgrid(src.ixvecs + ox, src.iyvecs + oy))
    n = xs.size
    ids = list(range(0, n, max(1, n // 12)))[:12]
    for k in range(2 ** len(ids)):
        if k % nparts != part:
            continue
        sel = np.ones(n, bool)
        for b, i in enumerate(ids):
            if (k >> b) & 1:
                sel[i] = False
        if k % 3 == 0:
            # only the vectors of the pattern
            sel[[i for i in range(n) if i not in ids]] = False
        cx, cy = list(LINEAR.values())[k % 4], list(LINEAR.values())[(k // 4) % 4]
        dx, dy = lin(cx, xs, ys).astype(np.float32), lin(cy, xs, ys).astype(np.float32)
        dx[~sel] = np.nan
        dy[~sel] = np.nan
        if not sel.all():
            dx[np.nonzero(~sel)[0][0]] = 3.0  # nan for only one component
        res = HeavyPIVResults(dx.copy(), dy.copy(), xs, ys, {}, correls_max=np.ones(n), correls=[None] * n, couple=Couple(), params=params)
        what = f"{cfg} last={last} valid vectors: x={xs[sel]} y={ys[sel]}"
        try:
            with quiet(), np.errstate(all="ignore"):
                piv.apply_interp(res, last=last)
        except InterpError:
            check(not sel.any(), lambda: f"{what}: InterpError", "work-error")
            continue
        except Exception as err:
            check(False, lambda: f"{what}: {type(err).__name__} {str(err)[:100]}", "work-error")
        check(sel.any(), f"{what}: interpolation without valid vectors", "work-nothing")
        suf = "final" if last else "approx"
        ix, iy = getattr(res, "ixvecs_" + suf), getattr(res, "iyvecs_" + suf)
        ex, ey = (a.ravel() for a in np.meshgrid(piv.ixvecs + ox, piv.iyvecs + oy))
        check(np.array_equal(ix, ex) and np.array_equal(iy, ey), lambda: f"{what}: positions {ix} {iy} instead of {ex} {ey}", "work-positions")
        check(np.array_equal(res.deltaxs, dx, equal_nan=True) and np.array_equal(res.deltays, dy, equal_nan=True), f"{what}: vectors modified", "work-modified")
        for comp, coefs, d in (("x", cx, dx), ("y", cy, dy)):
            got = getattr(res, f"delta{comp}s_{suf}")
            exp = lin(coefs, ix, iy)
            nan = np.isnan(got)
            tps = hasattr(res, f"delta{comp}s_tps")
            if not tps:
                check(not nan.any(), lambda: f"{what}: nan: {got}", "work-nan")
            inside = (ix >= xs[sel].min()) & (ix <= xs[sel].max()) & (iy >= ys[sel].min()) & (iy <= ys[sel].max())
            check(not nan[inside].any(), lambda: f"{what}: nan in the region of the vectors: {got}", "work-nan")
            # no wild values
            vals = lin(coefs, xs[sel], ys[sel])
            lo, hi = min(vals.min(), exp.min()), max(vals.max(), exp.max())
            g = got[~nan]
            check(np.all((g > lo - 0.01) & (g < hi + 0.01)), lambda: f"{what}: delta{comp} {got} out of [{lo}, {hi}]", "work-wild")
            if sel.all() or tps:
                far = 1e-3
                ok = nan | (abs(got - exp) < far)
                if not tps:
                    ok |= ~inside
                check(ok.all(), lambda: f"{what}: delta{comp} {got} instead of {exp}", "work-linear")
            if hasattr(res, f"delta{comp}s_smooth"):
                s = getattr(res, f"delta{comp}s_smooth")
                e = lin(coefs, res.xs_smooth, res.ys_smooth)
                okk = np.isnan(s) | (abs(s - e) < 1e-3)
                check(okk.all(), lambda: f"{what}: smoothed {s} instead of {e}", "work-smooth")
        if hasattr(res, "xs_smooth"):
            # (nan outside of the extended subdomains)
            check(np.allclose(res.xs_smooth[sel], xs[sel]) and np.allclose(res.ys_smooth[sel], ys[sel]), f"{what}: xs_smooth", "work-xs-smooth")
        rec.count("evaluations")
        if not sel.all():
            rec.nontrivial((cfg, last, k))


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    q = ctx.quick
    out = []
    P = 8
    shapes = [(1, 3), (3, 1), (1, 1), (2, 2), (2, 4), (3, 3)] + ([] if q else [(3, 4), (4, 3)])
    for s in shapes:
        n = s[0] * s[1]
        np_ = 1 if n < 8 else P if n < 10 else 4 * P
        for irr in (False, True):
            for part in range(np_):
                out.append(("griddata", s, part, np_, irr))
    for s in [(1, 4), (4, 1), (2, 3), (3, 3), (3, 4)] + ([] if q else [(4, 3), (2, 7), (4, 4)]):
        n = s[0] * s[1]
        np_ = 1 if n < 8 else P if n < 15 else 4 * P
        for subdom, smooth in ((100, 5.0), (100, 0.0), (4, 5.0), (6, 1.0)) if n < 15 else ((100, 5.0), (6, 1.0)):
            for irr in (False, True):
                for part in range(np_):
                    out.append(("tps", s, part, np_, subdom, smooth, irr))
    for s in [(2, 3), (3, 3)] + ([] if q else [(3, 4)]):
        for irr in (False, True):
            for part in range(P):
                out.append(("rbf", s, irr, part, P))
    for s in [(5, 6), (8, 6), (4, 12)] + ([] if q else [(12, 4), (10, 10), (14, 9)]):
        for subdom in (4, 6, 9, 12, 16, 25, 200):
            for smooth in (0.0, 1.0):
                for irr in (False, True):
                    out.append(("subdom", s, subdom, smooth, irr))
    works = {
        "griddata": dict(crop=16),
        "griddata-2": dict(crop=16, number=2, multipass__coeff_zoom=[2]),
        "griddata-mask": dict(crop=14, number=2, multipass__coeff_zoom=[1], mask__strcrop="6:, 4:"),
        "tps": dict(crop=16, multipass__use_tps=True, multipass__subdom_size=100),
        "tps-subdom": dict(crop=12, multipass__use_tps=True, multipass__subdom_size=14),
        "tps-2": dict(crop=16, number=2, multipass__coeff_zoom=[1], multipass__use_tps=True, multipass__subdom_size=30, multipass__smoothing_coef=1.0),
        "tps-nothr": dict(crop=16, multipass__use_tps="last", multipass__threshold_tps=None, multipass__smoothing_coef=0.5),
        "tps-mask": dict(crop=14, multipass__use_tps="last", multipass__subdom_size=50, mask__strcrop="6:, 4:"),
    }
    for cfg, kw in works.items():
        for last in (True, False):
            if last and kw.get("number") == 2 and kw["multipass__coeff_zoom"] == [2]:
                continue
            for part in range(P):
                out.append(("work", cfg, kw, part if q else part, P if not q else P, last))
    ctx.pmap(case, out, timeout=600)
