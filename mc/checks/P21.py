"""P21: wrong vectors are removed or replaced, the other ones are kept"""
import itertools
from math import hypot

import numpy as np

from ..common import check, quiet
from ..piving import piv_params

LEVEL = "exploration"
RULE = (
    "mean of the neighbours: all the patterns of missing vectors of each grid shape (up to 12 vectors); correction: all the "
    "assignments of 14 kinds of vectors to the vectors of small grids (all for up to 3 vectors, up to 2 or 3 kinds of special "
    "vectors for larger grids) x all the settings; complete computations with windows containing something else. Non trivial: "
    "at least one vector is removed or replaced."
)
ASSUMPTIONS = ["differences closer than 1e-3 to the threshold are not decided"]


# ---------------------------------------------------------------- mean of the neighbours


def mean_oracle(d, i0, i1):
    n0, n1 = d.shape
    if np.isnan(d[i0, i1]):
        return np.nan
    vals = [
        d[j0, j1]
        for j0 in range(max(i0 - 1, 0), min(i0 + 2, n0))
        for j1 in range(max(i1 - 1, 0), min(i1 + 2, n1))
        if (j0, j1) != (i0, i1) and not np.isnan(d[j0, j1])
    ]
    return sum(vals) / len(vals) if vals else np.nan


def case_mean(rec, shape):
    from fluidimage.calcul.mean_neighbors import mean_neighbors_xy

    n0, n1 = shape
    n = n0 * n1
    ix = np.arange(n1, dtype=np.int64) * 3 + 2
    iy = np.arange(n0, dtype=np.int64) * 5 + 7
    basex = np.array([(7 * i * i) % 23 - 11 for i in range(n)], dtype=np.float32)
    basey = np.array([(5 * i * i + i) % 19 - 4 for i in range(n)], dtype=np.float32)
    for bits in range(2**n):
        mask = np.array([(bits >> i) & 1 for i in range(n)], dtype=bool)
        dx, dy = basex.copy(), basey.copy()
        # missing in both directions or in only one
        dx[mask] = np.nan
        if bits % 3:
            dy[mask] = np.nan
        x0, y0 = dx.copy(), dy.copy()
        try:
            mx, my = mean_neighbors_xy(dx, dy, iy, ix)
        except Exception as err:
            check(False, f"{shape}: {type(err).__name__} {err}", "mean-error")
        check(np.array_equal(dx, x0, equal_nan=True) and np.array_equal(dy, y0, equal_nan=True), f"{shape}: input modified", "mean-input")
        for arr, got in ((basex, mx), (basey, my)):
            d = arr.astype(float)
            d[mask] = np.nan
            d = d.reshape(shape)
            exp = np.array([mean_oracle(d, i, j) for i in range(n0) for j in range(n1)])
            check(
                got.shape == (n,) and np.allclose(got, exp, rtol=1e-5, atol=1e-4, equal_nan=True),
                lambda: f"mean of the neighbours {shape}: {got} instead of {exp} for\n{d}",
                "mean",
            )
        rec.count("evaluations")
        if bits:
            rec.nontrivial(("mean", shape, bits))


# ---------------------------------------------------------------- correction

U = (3.0, 0.0)  # displacement of the right vectors
CORREL = (20, 20)
TH, DMAX, CMIN = 2, 4, 0.2

# name: (displacement, correlation, error, secondary peaks)
STATES = {
    "ok": (U, 0.8, None, ()),
    "ok-peak": (U, 0.8, None, (((0, 0), 0.7),)),
    "ok-close": ((4.0, 0.0), 0.8, None, (((3, 0), 0.7),)),
    "error": ((6, 5), 0.5, "Correlation peak touching boundary.", ()),
    "error-low": ((6, 5), 0.1, "Correlation peak touching nan.", ()),
    "lost": ((np.nan, np.nan), np.nan, "Bad im_crop shape.", ()),
    "subpix": ((3, 0), 0.7, "wrong subpix", (((3, 1), 0.6),)),
    "low": (U, 0.1, None, (((3, 1), 0.09),)),
    "big": ((5, 3), 0.8, None, (((3, 0), 0.7),)),
    "far": ((0, 1), 0.8, None, ()),
    "far-peak": ((0, 1), 0.8, None, (((3, 1), 0.7),)),
    "far-2-peaks": ((0, 1), 0.8, None, (((3, 2), 0.75), ((3, 0), 0.7))),
    "far-bad-peaks": ((0, 1), 0.8, None, (((4, 1), 0.7), ((0, 0), 0.6))),
    "far-low-peak": ((0, 1), 0.28, None, (((3, 1), 0.19),)),
    "far-ratio": ((0, 1), 0.9, None, (((3, 1), 0.5),)),
}


def make_correl_map(c, peaks):
    y, x = np.mgrid[0 : CORREL[0], 0 : CORREL[1]]
    correl = np.zeros(CORREL, dtype=np.float32)
    for (dx, dy), value in peaks:
        ix, iy = c.compute_indices_from_displacement(dx, dy)
        correl = np.maximum(correl, value * np.exp(-((x - ix) ** 2 + (y - iy) ** 2) / 1.5)).astype(np.float32)
    return correl


def expected(shape, states, th, dmax, nb_peaks):
    """independent interpretation: -> (values, errors, wrong, replaced)"""
    n = len(states)
    d = np.array([STATES[s][0] for s in states], dtype=float)
    d[:, 0] += 0.02 * np.arange(n)
    orig = d.copy()
    corr = np.array([STATES[s][1] for s in states])
    errors = {i: [STATES[s][2]] for i, s in enumerate(states) if STATES[s][2]}
    for i in range(n):
        if corr[i] < CMIN:
            errors.setdefault(i, []).append("correl < correl_min")
    d[list(errors)] = np.nan
    if dmax:
        for i in range(n):
            if i not in errors and hypot(*d[i]) > dmax:
                errors[i] = ["displacement_max"]
    d[list(errors)] = np.nan
    mean = np.stack([[mean_oracle(d[:, k].reshape(shape), i, j) for i in range(shape[0]) for j in range(shape[1])] for k in (0, 1)], axis=1)
    diff = np.hypot(*(mean - d).T)
    undecided = False
    for i in range(n):
        if th is not None and diff[i] > th:
            errors[i] = ["neighbour"]
        if abs(diff[i] - TH) < 1e-3:
            undecided = True
    removed = dict(errors)
    d[list(errors)] = np.nan
    replaced = {}
    if nb_peaks >= 2:
        for i, s in enumerate(states):
            if np.isnan(diff[i]):
                continue
            good = [(hypot(*(mean[i] - np.array(p))), p, v) for p, v in STATES[s][3] if v > CMIN and v / corr[i] > 0.6]
            if not good:
                continue
            best = min(good)
            if best[0] > diff[i] - 1e-3:
                undecided |= abs(best[0] - diff[i]) < 1e-3
                continue
            dists = sorted(g[0] for g in good)
            undecided |= len(dists) > 1 and dists[1] - dists[0] < 1e-3
            undecided |= abs(best[0] - TH) < 1e-3
            if th is not None and best[0] > th:
                continue
            if dmax and hypot(*best[1]) > dmax:
                continue
            replaced[i] = (best[1], best[2])
            errors.pop(i, None)
    return orig, d, corr, errors, removed, replaced, undecided


def case_fix(rec, shape, list_states, settings):
    from fluidimage.data_objects.piv import HeavyPIVResults
    from fluidimage.works.piv import WorkPIV

    ny, nx = shape
    n = ny * nx
    for th, dmax, nb_peaks, inp in settings:
        params = piv_params(crop=CORREL[0], fix__correl_min=CMIN, fix__threshold_diff_neighbour=th, fix__displacement_max=dmax, piv0__nb_peaks_to_search=nb_peaks)
        work = WorkPIV(params)
        piv, fix = work.works_piv[0], work.works_fix[0]
        piv.ixvecs = np.arange(nx, dtype=np.int64) * 10 + 10
        piv.iyvecs = np.arange(ny, dtype=np.int64) * 10 + 10
        ixs, iys = (a.ravel() for a in np.meshgrid(piv.ixvecs, piv.iyvecs))
        inp = np.array(inp)
        for states in list_states:
            what = f"{shape} {states} threshold={th} displacement_max={dmax} peaks={nb_peaks} input={tuple(inp)}"
            orig, values, corr, errors, removed, replaced, undecided = expected(shape, states, th, dmax, nb_peaks)
            if undecided:
                continue
            peaks = [
                None if not STATES[s][3] and STATES[s][2] else [(p[0] - inp[0], p[1] - inp[1], v) for p, v in STATES[s][3]][: nb_peaks - 1 if nb_peaks > 2 else None]
                for s in states
            ]
            correls = [
                None if STATES[s][0][0] != STATES[s][0][0] else make_correl_map(piv.correl, [(np.array(STATES[s][0]) - inp, corr[i])] + [(np.array(p) - inp, v) for p, v in STATES[s][3]])
                for i, s in enumerate(states)
            ]
            res = HeavyPIVResults(
                orig[:, 0].astype(np.float32),
                orig[:, 1].astype(np.float32),
                ixs.copy(),
                iys.copy(),
                {i: STATES[s][2] for i, s in enumerate(states) if STATES[s][2]},
                correls_max=corr.astype(np.float32),
                correls=correls,
                couple=None,
                params=params,
                secondary_peaks=[None] * n if nb_peaks < 2 else peaks,
            )
            if inp.any():
                res.deltaxs_input = np.full(n, inp[0])
                res.deltays_input = np.full(n, inp[1])
            try:
                with quiet():
                    out = fix.calcul(res)
            except Exception as err:
                check(False, f"{what}: {type(err).__name__} {err}", "fix-error")
            check(sorted(int(k) for k in out.errors) == sorted(errors), lambda: f"{what}: errors {out.errors}, expected for {errors}", "fix-errors")
            for i in range(n):
                got = np.array([out.deltaxs[i], out.deltays[i]])
                if i in replaced:
                    p, v = replaced[i]
                    check(np.all(abs(got - np.array(p)) < 0.75), lambda: f"{what}: vector {i}: {got} instead of the secondary peak {p}", "fix-replaced")
                    # symmetrical peaks: the maximum is at the center
                    check(abs(out.correls_max[i] - v) < 1e-6, lambda: f"{what}: vector {i}: correlation {out.correls_max[i]}", "fix-replaced-correl")
                    old = out.replaced_vectors[i]
                    check(
                        np.allclose(old, (orig[i, 0], orig[i, 1], corr[i]), atol=1e-5),
                        lambda: f"{what}: replaced vector {i}: {old} kept instead of {orig[i]} {corr[i]}",
                        "fix-replaced-old",
                    )
                    continue
                check(
                    np.allclose(got, values[i], atol=1e-5, equal_nan=True),
                    lambda: f"{what}: vector {i}: {got} instead of {values[i]} ({out.errors})",
                    "fix-values",
                )
                check(out.correls_max[i] == np.float32(corr[i]) or np.isnan(corr[i]), lambda: f"{what}: correlation {i}", "fix-correl")
                if i in errors:
                    for part in errors[i]:
                        check(part in out.errors[i], lambda: f"{what}: message {out.errors[i]!r} for {errors[i]}", "fix-message")
            wx, wy = out.deltaxs_wrong, out.deltays_wrong
            check(sorted(int(k) for k in wx) == sorted(int(k) for k in wy) == sorted(errors), lambda: f"{what}: wrong vectors {wx} {wy}, errors {errors}", "fix-wrong")
            for i in errors:
                check(np.allclose((wx[i], wy[i]), orig[i], atol=1e-5, equal_nan=True), lambda: f"{what}: wrong vector {i}: {wx[i], wy[i]}", "fix-wrong-values")
            check(np.array_equal(out.xs, ixs) and np.array_equal(out.ys, iys), f"{what}: positions", "fix-positions")
            check(sorted(getattr(out, "replaced_vectors", None) or {}) == sorted(replaced), lambda: f"{what}: replaced {getattr(out, 'replaced_vectors', None)}, expected {replaced}", "fix-replaced")
            rec.count("evaluations")
            if removed or replaced:
                rec.nontrivial(what)
    rec.sample(what)


# ---------------------------------------------------------------- complete computations


def case_real(rec, cfg, kw, seed):
    """some windows of the second image contain something else"""
    from fluidimage.piv import Work

    from .P19 import moved

    shape = (56, 64)
    ims = moved(shape, lambda x, y: (2 + 0 * x, -1 + 0 * y), seed)
    other = moved(shape, lambda x, y: (-3 + 0 * x, 2 + 0 * y), seed + 100)
    im1 = ims[1].copy()
    k = seed % 9
    y0, x0 = 8 + 14 * (k // 3), 8 + 16 * (k % 3)
    im1[y0 : y0 + 16, x0 : x0 + 16] = other[1][y0 : y0 + 16, x0 : x0 + 16]
    if seed % 2:
        im1[:, :14] = 0
    out = {}
    for name, extra in (("fix", {}), ("nofix", dict(fix__correl_min=-1, fix__threshold_diff_neighbour=None, fix__displacement_max=None, piv0__nb_peaks_to_search=1))):
        k2 = {**kw, **extra}
        if name == "nofix":
            k2.pop("number", None)
            k2.pop("multipass__coeff_zoom", None)
        params = piv_params(**k2)
        with quiet():
            out[name] = Work(params).calcul({"names": ("a.png", "b.png"), "arrays": (ims[0].copy(), im1.copy())})
    what = f"{cfg} {seed}"
    fix = piv_params(**kw).fix
    for ip, r in enumerate(out["fix"].passes):
        bad = set(int(i) for i in r.errors)
        nan = set(int(i) for i in np.nonzero(np.isnan(r.deltaxs) | np.isnan(r.deltays))[0])
        check(bad <= nan, lambda: f"{what} pass {ip}: wrong vectors {sorted(bad - nan)} kept", "real-nan")
        # (subpix methods may give nan for windows without particles)
        check(set(int(i) for i in r.deltaxs_wrong) == bad, f"{what} pass {ip}: wrong vectors {r.deltaxs_wrong} != {bad}", "real-wrong")
        rep = set(getattr(r, "replaced_vectors", None) or {})
        for i in range(r.deltaxs.size):
            if i in nan:
                continue
            check(r.correls_max[i] >= fix.correl_min, lambda: f"{what} pass {ip}: vector {i} with a correlation {r.correls_max[i]}", "real-correl")
            if fix.displacement_max:
                d = hypot(r.deltaxs[i], r.deltays[i])
                check(d <= fix.displacement_max + (0.75 if i in rep else 0), lambda: f"{what} pass {ip}: vector {i} with a displacement {d}", "real-dmax")
        if bad:
            rec.nontrivial((what, ip))
    a, b = out["fix"].passes[0], out["nofix"].passes[0]
    rep = set(getattr(a, "replaced_vectors", None) or {})
    if len(out["fix"].passes) == 1:
        for i in range(a.deltaxs.size):
            if i in rep:
                continue
            if i in a.errors:
                got = (a.deltaxs_wrong[i], a.deltays_wrong[i])
                exp = (b.deltaxs_wrong[i], b.deltays_wrong[i]) if i in b.errors else (b.deltaxs[i], b.deltays[i])
            else:
                got, exp = (a.deltaxs[i], a.deltays[i]), (b.deltaxs[i], b.deltays[i])
            check(np.allclose(got, exp, atol=1e-4, equal_nan=True), lambda: f"{what}: vector {i}: {got} instead of {exp}", "real-values")
    rec.count("evaluations")


def case_line(rec, shape, kw):
    """only one row or one column of vectors"""
    from fluidimage.piv import Work

    from .P19 import moved

    ims = moved(shape, lambda x, y: (1 + 0 * x, -1 + 0 * y), 7)
    what = f"images {shape} {kw}"
    try:
        with quiet():
            res = Work(piv_params(**kw)).calcul({"names": ("a.png", "b.png"), "arrays": ims})
    except Exception as err:
        check(False, f"{what}: {type(err).__name__} {err}", "line-error")
    r = res.passes[-1]
    ok = ~np.isnan(r.deltaxs)
    check(ok.sum() >= 0.6 * ok.size, lambda: f"{what}: {r.errors}", "line")
    good = (abs(r.deltaxs - 1) < 1.2) & (abs(r.deltays + 1) < 1.2)
    check(good.sum() >= 0.85 * ok.sum(), lambda: f"{what}: {r.deltaxs} {r.deltays}", "line")
    rec.count("evaluations")
    rec.nontrivial(what)


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


SETTINGS = [
    (th, dmax, nb, inp) for th in (TH, None) for dmax in (DMAX, None) for nb in (1, 2, 3) for inp in ((0, 0), (2, -1)) if not (nb == 1 and inp != (0, 0))
]


def assignments(n, k):
    """all the assignments with at most k vectors which are not simply right"""
    special = [s for s in STATES if s != "ok"]
    for m in range(k + 1):
        for where in itertools.combinations(range(n), m):
            for what in itertools.product(special, repeat=m):
                out = ["ok"] * n
                for i, s in zip(where, what):
                    out[i] = s
                yield tuple(out)


def run(ctx):
    out = []
    for n0 in range(1, 5):
        for n1 in range(1, 5):
            if n0 * n1 <= (9 if ctx.quick else 12):
                out.append(("mean", (n0, n1)))
    out.append(("mean", (1, 7)))
    out.append(("mean", (7, 1)))
    if not ctx.quick:
        out += [("mean", (1, 12)), ("mean", (2, 6))]
    grids = [((1, 1), 1), ((1, 2), 2), ((2, 1), 2), ((2, 2), 2), ((1, 4), 2), ((3, 3), 1), ((2, 3), 2)]
    if not ctx.quick:
        grids = [((1, 1), 1), ((1, 2), 2), ((2, 1), 2), ((1, 3), 3), ((2, 2), 3), ((1, 4), 2), ((4, 1), 2), ((2, 3), 2), ((3, 3), 2), ((3, 4), 2)]
    for shape, k in grids:
        todo = list(assignments(shape[0] * shape[1], k))
        for i in range(0, len(todo), 250):
            for s in SETTINGS:
                out.append(("fix", shape, todo[i : i + 250], [s]))
    cfgs = {
        "default": dict(crop=16),
        "strict": dict(crop=16, fix__correl_min=0.4, fix__threshold_diff_neighbour=1.5, fix__displacement_max=3),
        "peaks": dict(crop=16, piv0__nb_peaks_to_search=2, fix__threshold_diff_neighbour=1.5, fix__displacement_max=3.5),
        "peaks-nothr": dict(crop=16, piv0__nb_peaks_to_search=3, piv0__particle_radius=2, fix__threshold_diff_neighbour=None, fix__correl_min=0.3),
        "nothr": dict(crop=16, fix__threshold_diff_neighbour=None, fix__correl_min=0.5),
        "mask": dict(crop=16, mask__strcrop="4:, :60", fix__threshold_diff_neighbour=2),
        "two": dict(crop=16, number=2, multipass__coeff_zoom=[1], piv0__nb_peaks_to_search=2, fix__threshold_diff_neighbour=1.5, fix__displacement_max=4),
    }
    for cfg, kw in cfgs.items():
        for seed in range(9 if ctx.quick else 27):
            out.append(("real", cfg, kw, seed))
    for shape in ((56, 20), (20, 56), (18, 20), (56, 24), (24, 56)):
        for kw in (dict(crop=16), dict(crop=16, piv0__nb_peaks_to_search=2), dict(crop=16, number=2, multipass__coeff_zoom=[2]), dict(crop=16, piv0__grid__overlap=0)):
            if kw.get("number") == 2 and min(shape) < 24:
                continue
            out.append(("line", shape, kw))
    ctx.pmap(case, out, timeout=600)
