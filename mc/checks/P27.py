"""P27: preprocessing tools"""
import itertools
import os
import re

import numpy as np

from .. import data
from ..common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "For each tool: all the small images over a set of values (including the limits of the types), types of pixels, forms of the argument "
    "(one image, array or list of images), parameters; explicit loops over the windows as oracle. All the sequences of up to two (three) tools against "
    "the composition of the functions; content of the files saved by the real topology. Non trivial: image which is not constant."
)
ASSUMPTIONS = [
    "even windows are placed as scipy does; the gaussian filters and local thresholds and adaptive equalizations of the libraries are trusted",
]

MODES = ("reflect", "constant", "nearest", "mirror", "wrap")


def index(i, n, mode):
    """index in 0..n-1 of the position i of the extended signal (None: zero)"""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode == "wrap":
        return i % n
    if mode == "reflect":
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == "mirror":
        if n == 1:
            return 0
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i


def largest(dtype):
    """largest value used for a type"""
    if np.issubdtype(dtype, np.integer):
        return min(int(np.iinfo(dtype).max), 65536 + 255)
    return 300.25


def windows(img, size, mode="reflect"):
    """for each pixel (any number of dimensions), the sorted values of the window"""
    size = (size,) * img.ndim if np.isscalar(size) else tuple(size)
    out = {}
    for pos in itertools.product(*map(range, img.shape)):
        values = []
        for off in itertools.product(*(range(-(s // 2), s - s // 2) for s in size)):
            ind = [index(p + o, n, mode) for p, o, n in zip(pos, off, img.shape)]
            values.append(0 if None in ind else float(img[tuple(ind)]))
        out[pos] = sorted(values)
    return out


def bounds(values, stat, percentile):
    """smallest and largest possible values of the statistics"""
    n = len(values)
    if stat == "minima" or (stat == "percentile" and percentile == 0):
        return values[0], values[0]
    if stat == "median":
        percentile = 50
    r = percentile / 100 * n
    lo, hi = int(np.floor(percentile / 100 * (n - 1))), int(np.ceil(r))
    if percentile == 50 and n % 2:
        lo = hi = n // 2
    return values[max(lo, 0)], values[min(hi, n - 1)]


def images(shape, values, dtype):
    for vals in itertools.product(values, repeat=int(np.prod(shape))):
        yield np.array(vals, dtype=dtype).reshape(shape)


PATTERNS = (
    [[200, 10, 10, 3], [10, 11, 10, 250], [0, 10, 255, 9], [4, 4, 4, 100], [255, 255, 254, 0]],
    [[1, 2, 3, 4], [8, 7, 6, 5], [9, 10, 11, 12], [16, 15, 14, 13], [17, 18, 19, 20]],
    [[0, 0, 255, 0], [0, 255, 0, 0], [255, 0, 0, 255], [0, 0, 255, 255], [0, 255, 255, 255]],
)


def patterns():
    for p in PATTERNS:
        a = np.array(p)
        yield a.astype(np.uint8)
        yield (a * 257).astype(np.uint16)
        yield a * 1.5
        yield (a * 257).astype(np.int32)


def verify_sub(what, out, img, weight, size, mode, stat, percentile, clip):
    out = np.asarray(out)
    check(out.shape == img.shape, lambda: f"{what}: shape {out.shape}", "shape")
    for pos, vals in windows(img, size, mode).items():
        lo, hi = bounds(vals, stat, percentile)
        a, b = img[pos] - weight * float(hi), img[pos] - weight * float(lo)
        if clip:
            a, b = max(a, 0), max(b, 0)
        got = float(out[pos])
        check(min(a, b) - 1e-3 <= got <= max(a, b) + 1e-3, lambda: f"{what}: pixel {pos} is {got} instead of {a}{'' if a == b else f' to {b}'}\nimage\n{img}", "sub")


def toolbox(backend):
    if backend == "py":
        from fluidimage.works.preproc import _toolbox_py as t
    else:
        from fluidimage.works.preproc import _toolbox_cv as t
    return t


def call(what, func, img, **kw):
    before = [np.array(i) for i in img]
    with np.errstate(all="ignore"):
        out = func(img, **kw)
    check(all(np.array_equal(a, b) for a, b in zip(before, img)), lambda: f"{what}: argument modified", "modified")
    return out


def case_sliding(rec, backend, tool, shape, dtype, weight):
    """all the images of a small shape"""
    t = toolbox(backend)
    func = getattr(t, "sliding_" + tool)
    top = largest(dtype)
    for img in images(shape, (0, 1, top) if int(np.prod(shape)) > 4 else (0, 1, 130, top), dtype):
        for size in (3,) if backend == "cv" or shape == (2, 3) else (3, (1, 3), 2 if tool == "minima" else 1):
            what = f"{backend} sliding_{tool} weight={weight!r} window_size={size} {np.dtype(dtype)} {img.tolist()}"
            kw = dict(percentile=10.0) if tool == "percentile" else {}
            out = call(what, func, img, weight=weight, window_size=size, **kw)
            mode = "nearest" if backend == "cv" and tool == "median" else "reflect"
            verify_sub(what, out, img, weight, size, mode, tool, 10.0, backend == "py")
            rec.count("evaluations")
        if img.min() < img.max():
            rec.nontrivial((backend, tool, weight, str(np.dtype(dtype)), img.tolist()))


def case_params(rec, backend, tool):
    """patterns x all the parameters x forms of the argument"""
    t = toolbox(backend)
    func = getattr(t, "sliding_" + tool)
    imgs = list(patterns())
    for img in imgs:
        if backend == "py":
            confs = [dict(window_size=s, boundary_condition=m) for s in (1, 3, 5, (3, 1), (1, 5), (3, 5), 2, 4) for m in MODES]
        elif tool == "median":
            confs = [dict(window_size=s) for s in (3, 5, 7, 9)]
        else:
            confs = [dict(window_size=s, boundary_condition=b) for s in (3, 5) for b in ("reflect", "replicate", "default")]
        for kw in confs:
            for p in (0.0, 10.0, 50.0, 90.0) if tool == "percentile" else (None,):
                kw1 = dict(kw, percentile=p) if p is not None else kw
                for weight in (1.0, 0.5, 1):
                    what = f"{backend} sliding_{tool} {kw1} weight={weight!r} {img.dtype}"
                    out = call(what, func, img, weight=weight, **kw1)
                    if backend == "cv":
                        mode = "nearest" if tool == "median" else {"reflect": "reflect", "replicate": "nearest", "default": "mirror"}[kw["boundary_condition"]]
                    else:
                        mode = kw["boundary_condition"]
                    verify_sub(what, out, img, weight, kw["window_size"], mode, tool, p, backend == "py")
                    rec.count("evaluations")
                    rec.nontrivial((what, img.tolist()))
    forms(rec, backend, "sliding_" + tool, [dict(window_size=3)], imgs)


def forms(rec, backend, name, kws, imgs):
    """several images: each one is processed alone"""
    func = getattr(toolbox(backend), name)
    for dtype in {i.dtype for i in imgs}:
        same = [i for i in imgs if i.dtype == dtype]
        for kw in kws:
            with np.errstate(all="ignore"):
                alone = [np.asarray(func(i, **kw), dtype=float) for i in same]
            for n in (1, 2, 3):
                for sel in itertools.permutations(range(len(same)), n):
                    group = [same[i] for i in sel]
                    for form, arg in (("array", np.array(group)), ("list", group), ("tuple", tuple(group)), ("keyword", None)):
                        what = f"{backend} {name} {kw} of {n} images {dtype} ({form}, {sel})"
                        if form == "keyword":
                            with np.errstate(all="ignore"):
                                out = func(img=np.array(group), **kw)
                        else:
                            out = call(what, func, arg, **kw)
                        check(len(out) == n, lambda: f"{what}: {len(out)} images", "forms")
                        for i, o in zip(sel, out):
                            check(np.allclose(np.asarray(o, dtype=float), alone[i], equal_nan=True), lambda: f"{what}: image {i} is\n{o}\ninstead of\n{alone[i]}", "forms")
                        rec.count("evaluations")


def case_temporal(rec, tool, n, dtype):
    """all the series of n images of 1x2 pixels, windows; patterns"""
    t = toolbox("py")
    func = getattr(t, "temporal_" + tool)
    top = largest(dtype)
    series = list(images((n, 1, 2), (0, 1, top) if n < 4 else (0, top), dtype))
    base = np.arange(n * 6).reshape(n, 2, 3) * 37 % 251
    series += [base.astype(dtype), (base[::-1] * 1.0).astype(dtype)]
    shapes = [None, 2, 3, (1, 1), [1, 1], (2, 1, 1), [3, 1, 1], (3, 1, 3), (1, 3)]
    for img in series:
        for w in shapes:
            full = (n, 1, 1) if w is None else (w, 1, 1) if np.isscalar(w) else (n,) + tuple(w) if len(w) == 2 else tuple(w)
            for weight in (1.0, 1, 0.5):
                if weight != 1.0 and full != (n, 1, 1) and img.shape[2] == 2:
                    continue
                for p in (0.0, 10.0, 50.0) if tool == "percentile" and full == (n, 1, 1) else (10.0,):
                    kw = dict(window_shape=w, weight=weight)
                    if tool == "percentile":
                        kw["percentile"] = p
                    what = f"temporal_{tool} {kw} {img.dtype} {img.tolist()}"
                    out = call(what, func, img, **kw)
                    verify_sub(what, out, img, weight, full, "reflect", tool, p, False)
                    rec.count("evaluations")
        what = f"temporal_{tool} list {img.tolist()}"
        kw = dict(percentile=10.0) if tool == "percentile" else {}
        ref = func(img, **kw)
        for arg in (list(img), tuple(img)):
            out = call(what, func, arg, **kw)
            check(type(out) is type(arg) and np.allclose(np.array(out, dtype=float), ref), lambda: f"{what}: {out} instead of {ref}", "temporal-forms")
            rec.count("evaluations")
        if img.min() < img.max():
            rec.nontrivial((tool, str(img.dtype), img.tolist()))
    for bad in (base[:1], base[0]):
        try:
            func(bad.astype(dtype))
        except ValueError:
            rec.count("evaluations")
        else:
            check(False, f"temporal_{tool} of one image {bad.shape}: no error", "temporal-one")


def case_threshold(rec, shape, dtype):
    py, cv = toolbox("py"), toolbox("cv")
    isint = np.issubdtype(dtype, np.integer)
    info = np.iinfo(dtype) if isint else None
    top = info.max if isint else 70000.5
    limits = [-1, 0, 1, 100, 255, 256, 4095, 65535, 10**6]
    for img in images(shape, (0, 1, 100, top), dtype):
        for mini, maxi in itertools.product(limits, limits + [None]):
            if maxi is not None and maxi < mini:
                continue
            what = f"global_threshold minima={mini} maxima={maxi} {np.dtype(dtype)} {img.tolist()}"
            out = call(what, py.global_threshold, img, minima=mini, maxima=maxi)
            m = maxi if maxi is not None else (info.max if isint else 65535)
            lo, hi = (min(max(v, info.min), info.max) if isint else v for v in (mini, m))
            exp = np.minimum(np.maximum(img.astype(float), lo), hi)
            if m >= mini:
                check(out.dtype == img.dtype and np.array_equal(out.astype(float), exp), lambda: f"{what}: {out.tolist()} instead of {exp.tolist()}", "threshold")
            rec.count("evaluations")
        if np.dtype(dtype) in (np.uint8, np.uint16, np.float32):
            for maxi in (1.0, 100.0, 65535.0):
                what = f"cv global_threshold maxima={maxi} {np.dtype(dtype)} {img.tolist()}"
                out = call(what, cv.global_threshold, img, maxima=maxi)
                exp = np.minimum(img.astype(float), maxi)
                check(np.array_equal(out.astype(float), exp), lambda: f"{what}: {out.tolist()} instead of {exp.tolist()}", "threshold-cv")
                rec.count("evaluations")
        rec.nontrivial((str(np.dtype(dtype)), img.tolist()))


def case_rescale(rec, shape, dtype):
    t = toolbox("py")
    top = largest(dtype)
    for img in images(shape, (0, 1, 130, top), dtype):
        f = img.astype(float)
        lo, hi = f.min(), f.max()
        # linear
        for mini, maxi in ((0.0, 4096), (0, 1), (-1.0, 1.0), (10, 255), (5.5, 5.75)):
            what = f"rescale_intensity {mini} {maxi} {np.dtype(dtype)} {img.tolist()}"
            out = np.asarray(call(what, t.rescale_intensity, img, minima=mini, maxima=maxi), dtype=float)
            if hi > lo:
                exp = mini + (f - lo) / (hi - lo) * (maxi - mini)
                check(np.allclose(out, exp), lambda: f"{what}: {out.tolist()} instead of {exp.tolist()}", "rescale")
            else:
                check(out.min() == out.max() and mini <= out.min() <= maxi, lambda: f"{what}: {out.tolist()}", "rescale")
            rec.count("evaluations")
        # tanh
        for threshold in (None, 0.5, 50, 1000.0):
            what = f"rescale_intensity_tanh threshold={threshold} {np.dtype(dtype)} {img.tolist()}"
            out = np.asarray(call(what, t.rescale_intensity_tanh, img, threshold=threshold), dtype=float)
            th = 2 * np.sqrt(np.mean(f**2)) if threshold is None else threshold
            if hi == 0:
                exp = f
            else:
                exp = np.tanh(f / th)
                exp = exp * hi / exp.max()
            check(out.shape == f.shape and np.all(abs(out - exp) < 1 + 1e-9), lambda: f"{what}: {out.tolist()} instead of {exp.tolist()} (rounded down)", "tanh")
            rec.count("evaluations")
        # gamma
        if not np.issubdtype(dtype, np.integer):
            for gamma, gain in ((1.0, 1.0), (2.0, 1.0), (0.5, 3.0)):
                what = f"gamma_correction {gamma} {gain} {img.tolist()}"
                out = call(what, t.gamma_correction, img, gamma=gamma, gain=gain)
                check(np.allclose(out, gain * f**gamma), lambda: f"{what}: {out.tolist()}", "gamma")
                rec.count("evaluations")
        # equalizations: order of the intensities kept, range of the image
        what = f"equalize_hist_global {np.dtype(dtype)} {img.tolist()}"
        out = np.asarray(call(what, t.equalize_hist_global, img), dtype=float)
        o = np.argsort(f.ravel(), kind="stable")
        check(np.all(np.diff(out.ravel()[o]) >= -1e-12), lambda: f"{what}: {out.tolist()}", "equalize")
        rec.count("evaluations")
        if hi > lo:
            rec.nontrivial((str(np.dtype(dtype)), img.tolist()))
    # sharpen
    import scipy.ndimage as ndi

    for img in patterns():
        for s1, s2, alpha in ((3.0, 1.0, 30.0), (1.0, 0.5, 2.0), (0.5, 2, 10)):
            what = f"sharpen {s1, s2, alpha} {img.dtype}"
            out = call(what, t.sharpen, img, sigma1=s1, sigma2=s2, alpha=alpha)
            b = ndi.gaussian_filter(img.astype(float), s1)
            exp = b + alpha * (b - ndi.gaussian_filter(b, s2))
            check(np.allclose(out, exp), lambda: f"{what}:\n{out}\ninstead of\n{exp}\nimage\n{img}", "sharpen")
            rec.count("evaluations")


def case_forms(rec):
    imgs = [i for i in patterns()]
    pos = [i for i in imgs if i.dtype in (np.uint8, np.uint16)]
    forms(rec, "py", "global_threshold", [dict(minima=3, maxima=100)], pos)
    forms(rec, "py", "adaptive_threshold", [dict(window_size=3)], pos)
    forms(rec, "py", "rescale_intensity", [{}], imgs)
    forms(rec, "py", "rescale_intensity_tanh", [{}, dict(threshold=30)], imgs)
    forms(rec, "py", "equalize_hist_global", [{}], imgs)
    forms(rec, "py", "equalize_hist_local", [dict(radius=1)], pos)
    forms(rec, "py", "equalize_hist_adapt", [dict(window_shape=(2, 2))], pos)
    forms(rec, "py", "gamma_correction", [dict(gamma=2.0)], imgs)
    forms(rec, "py", "sharpen", [dict(sigma1=1.0)], imgs)
    forms(rec, "cv", "global_threshold", [dict(maxima=100.0)], pos)
    forms(rec, "cv", "adaptive_threshold", [dict(window_size=3)], [i for i in pos if i.dtype == np.uint8])
    # local equalizations: range of the image
    t = toolbox("py")
    for img in pos:
        for name, kw in (("equalize_hist_local", dict(radius=1)), ("equalize_hist_local", {}), ("equalize_hist_adapt", dict(window_shape=(2, 2))), ("equalize_hist_adapt", {})):
            out = np.asarray(getattr(t, name)(img, **kw), dtype=float)
            what = f"{name} {kw} {img.dtype}"
            check(out.shape == img.shape and abs(out.min() - img.min()) < 1e-6 and abs(out.max() - img.max()) < 1e-6,
                  lambda: f"{what}: between {out.min()} and {out.max()} instead of {img.min()} and {img.max()}", "equalize-range")
            rec.count("evaluations")


# parameters small enough for the images
SMALL = dict(
    sliding_median=dict(window_size=3), sliding_minima=dict(window_size=3, weight=0.5), sliding_percentile=dict(window_size=(3, 3)),
    temporal_median=dict(window_shape=(3, 1, 1), weight=0.5), temporal_minima={}, temporal_percentile=dict(window_shape=(1, 1)),
    global_threshold=dict(minima=2, maxima=200), adaptive_threshold=dict(window_size=3), rescale_intensity=dict(maxima=1.0),
    rescale_intensity_tanh=dict(threshold=40.0), equalize_hist_global={}, equalize_hist_local=dict(radius=1), equalize_hist_adapt=dict(window_shape=(2, 2)),
    gamma_correction=dict(gamma=0.5), sharpen=dict(sigma1=1.0, alpha=3.0),
)


def model_apply(backend, confs, img):
    mod = toolbox(backend)
    for name, kw in confs:
        img = getattr(mod, name)(img, **kw)
    return img


def run_apply(backend, sequence, enabled, small, img, xml=None):
    from fluidimage.works.preproc import Work

    params = Work.create_default_params(backend=dict(py="python", cv="opencv")[backend])
    for name in enabled:
        params.tools[name].enable = True
        for k, v in small.get(name, {}).items():
            setattr(params.tools[name], k, v)
    if sequence is not None:
        params.tools.sequence = sequence
    if xml is not None:
        if xml.exists():
            xml.unlink()
        params = data.reload_xml(params, xml)
    from fluidimage.works.preproc import _get_backend_class

    tools = _get_backend_class(params.backend)(params)
    with np.errstate(all="ignore"):
        return tools.apply(img)


def outcome(f):
    try:
        with np.errstate(all="ignore"):
            return np.asarray(f())
    except Exception as err:  # noqa
        return type(err).__name__


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def case_sequences(rec, first, length):
    """all the sequences beginning by a tool: composition of the functions"""
    backend, first = first
    mod = toolbox(backend)
    small = SMALL if backend == "py" else dict(sliding_median=dict(weight=0.5), global_threshold=dict(maxima=200.0))
    names = list(mod.__all__)
    img = np.stack([np.array(p, dtype=np.uint8) for p in PATTERNS])
    import warnings

    warnings.simplefilter("ignore")
    with tmpdir() as d, quiet():
        for rest in itertools.chain.from_iterable(itertools.product(names, repeat=k) for k in range(length)):
            seq = (first,) + rest
            exp = outcome(lambda: model_apply(backend, [(n, small.get(n, {})) for n in seq], img))
            for xml in (None, d / "params.xml") if len(seq) < 3 else (None,):
                got = outcome(lambda: run_apply(backend, list(seq), set(seq), small, img, xml))
                what = f"{backend} sequence {seq}{' (parameters from XML)' if xml else ''}"
                check(same(got, exp), lambda: f"{what}: {got} instead of {exp}", "sequence")
                rec.count("evaluations")
            # tools of the sequence which are not enabled are not applied
            if len(seq) == 2 and seq[0] != seq[1]:
                for on in seq:
                    exp1 = outcome(lambda: model_apply(backend, [(on, small.get(on, {}))], img))
                    got = outcome(lambda: run_apply(backend, list(seq), {on}, small, img))
                    check(same(got, exp1), lambda: f"{backend} sequence {seq}, only {on} enabled: {got} instead of {exp1}", "enable")
                    rec.count("evaluations")
            # default order
            if len(set(seq)) == len(seq):
                order = sorted(seq, key=names.index)
                exp2 = outcome(lambda: model_apply(backend, [(n, small.get(n, {})) for n in order], img))
                got = outcome(lambda: run_apply(backend, None, set(seq), small, img))
                check(same(got, exp2), lambda: f"{backend} enabled {seq}: {got} instead of {exp2}", "default-order")
                rec.count("evaluations")
            rec.nontrivial((backend, seq))
        none = run_apply(backend, None, (), {}, img)
        check(np.array_equal(none, img), f"{backend} without enabled tool: image modified", "nothing")


def case_saved(rec, backend, conf, dtype, n, executor):
    """content of the images saved by the topology"""
    from fluidimage.topologies.preproc import TopologyPreproc
    from fluidimage.util import imread

    small = SMALL if backend == "py" else {}
    what = f"{backend} {conf} {n} images {np.dtype(dtype)} {executor}"
    with tmpdir() as d:
        with quiet():
            names = [f"im{i:02d}.png" for i in range(n)]
            (d / "im").mkdir()
            arrs = []
            for i, name in enumerate(names):
                a = np.roll(np.array(PATTERNS[i % 3]), i, axis=1)
                if dtype == np.uint16:
                    a = a * 16
                arrs.append(a.astype(dtype))
                data.write_png(d / "im" / name, arrs[-1])
            params = TopologyPreproc.create_default_params(backend=dict(py="python", cv="opencv")[backend])
            params.series.path = str(d / "im")
            temporal = any(c.startswith("temporal") for c in conf)
            if temporal:
                params.series.str_subset = f"i:i+{n}"
                params.series.ind_stop = 1
            params.saving.path = str(d / "res")
            params.saving.how = "recompute"
            for c in conf:
                params.tools[c].enable = True
                for k, v in small.get(c, {}).items():
                    setattr(params.tools[c], k, v)
            T = TopologyPreproc(params, logging_level=None)
            exc = data.compute(T, executor, 2)
            check(exc is None, f"{what}: {exc!r}", "saved")
            mod = toolbox(backend)
            order = sorted(conf, key=list(mod.__all__).index)
            groups = [arrs] if temporal else [[a] for a in arrs]
            exp = []
            for g in groups:
                img = np.array(g)
                for c in order:
                    img = getattr(mod, c)(img, **small.get(c, {}))
                exp.extend(img)
            got = {}
            for p in (d / "res").iterdir():
                if p.suffix == ".png":
                    got[p.name] = imread(p)
        check(sorted(got) == names, f"{what}: saved {sorted(got)}", "saved-names")
        for name, e in zip(names, exp):
            e = np.maximum(np.asarray(e, dtype=float), 0)
            g = got[name].astype(float)
            check(g.shape == e.shape and np.all(abs(g - e) < 1), lambda: f"{what}: image {name} saved\n{g}\ninstead of\n{e}", "saved")
        rec.count("evaluations")
        rec.nontrivial(what)


def case(rec, case):
    import warnings

    warnings.simplefilter("ignore")
    globals()["case_" + case[0]](rec, *case[1:])


def cases(quick):
    out = []
    py, cv = toolbox("py"), toolbox("cv")
    for n in py.__all__:
        out.append(("sequences", ("py", n), 2 if quick else 3))
    for n in cv.__all__:
        out.append(("sequences", ("cv", n), 3))
    for backend, tools in (("py", ("median", "percentile", "minima")), ("cv", ("median", "minima"))):
        for tool in tools:
            out.append(("params", backend, tool))
            for dtype in (np.uint8, np.uint16, np.float64, np.int32):
                for weight in (1.0, 1, 0.5):
                    out.append(("sliding", backend, tool, (2, 2), dtype, weight))
                    if not quick or weight == 1:
                        out.append(("sliding", backend, tool, (2, 3), dtype, weight))
                        out.append(("sliding", backend, tool, (1, 3), dtype, weight))
    for tool in ("median", "percentile", "minima"):
        for n in (2, 3) if quick else (2, 3, 4):
            for dtype in (np.uint8, np.uint16, np.float64):
                out.append(("temporal", tool, n, dtype))
    for dtype in (np.uint8, np.uint16, np.float64, np.float32, np.int32):
        out.append(("threshold", (1, 3) if quick else (2, 2), dtype))
        out.append(("rescale", (1, 3) if quick else (2, 2), dtype))
    out.append(("forms",))
    confs = [("py", (t,)) for t in ("sliding_median", "sliding_minima", "sliding_percentile", "temporal_median", "temporal_minima", "temporal_percentile", "global_threshold", "rescale_intensity_tanh", "sharpen")]
    confs += [("cv", ("sliding_median",)), ("cv", ("sliding_minima",)), ("py", ("sliding_minima", "global_threshold")), ("py", ("temporal_median", "global_threshold"))]
    confs += [("py", ("temporal_median", "sliding_median")), ("py", ("sharpen", "rescale_intensity_tanh"))]
    for backend, conf in confs:
        for dtype in (np.uint8, np.uint16):
            for ex in ("exec_sequential",) if quick else ("exec_sequential", "exec_async", "multi_exec_async", "exec_async_servers"):
                out.append(("saved", backend, conf, dtype, 3, ex))
    return out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=600, chunk=1)
