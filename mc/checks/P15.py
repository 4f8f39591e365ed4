"""P15: selection of the images and names of the results"""
import os
from itertools import product

import numpy as np

from mc import data
from mc.common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "All the naming schemes of images (number and types of indices, separators, padding, base names) x all the forms of "
    "selection (subset expression, start, stop, step) x topologies: real computations, the files produced and their content are "
    "compared with an independent interpretation of the selection. Non trivial: at least two results."
)
ASSUMPTIONS = ["image files (no movies); tiny images"]


def image(n, _base=[]):
    """the same particles for all the images (the displacements are null), and an identifier"""
    if not _base:
        y, x = np.mgrid[0:36, 0:40]
        _base.append(((x * x * 7 + y * y * 13 + x * y * 5 + (x ^ y) * 17) % 211).astype(np.uint8))
    im = _base[0].copy()
    im[0, 0] = n
    return im


def letter(i):
    return "abcdefghijklmnopqrstuvwxyz"[i]


# naming schemes: (name of the scheme, fmt(indices) -> file name, fmt of the indices for the result, nb_indices)
SCHEMES = {
    "im%02d": (lambda i: f"im{i:02d}.png", [lambda i: f"{i:02d}"], 1),
    "im_%03d": (lambda i: f"im_{i:03d}.png", [lambda i: f"{i:03d}"], 1),
    "im-%d": (lambda i: f"im-{i:d}.png", [lambda i: f"{i:d}"], 1),
    "%02d": (lambda i: f"{i:02d}.png", [lambda i: f"{i:02d}"], 1),
    "a_b_%02d": (lambda i: f"a_b_{i:02d}.png", [lambda i: f"{i:02d}"], 1),
    # base name also in the extension or in the indices
    "p%d": (lambda i: f"p{i:d}.png", [lambda i: f"{i:d}"], 1),
    "b_%02dab": (lambda i, j: f"b_{i:02d}{letter(j)}.png", [lambda i: f"{i:02d}", letter], 2),
    "%02dab": (lambda i, j: f"im{i:02d}{letter(j)}.png", [lambda i: f"{i:02d}", letter], 2),
    "%02dAB": (lambda i, j: f"im{i:02d}{letter(j).upper()}.png", [lambda i: f"{i:02d}", lambda j: letter(j).upper()], 2),
    "%03d_%d": (lambda i, j: f"im_{i:03d}_{j:d}.png", [lambda i: f"{i:03d}", lambda i: f"{i:d}"], 2),
    "%d-%02d": (lambda i, j: f"im{i:d}-{j:02d}.png", [lambda i: f"{i:d}", lambda i: f"{i:02d}"], 2),
    "%d_%02dab": (lambda i, j, k: f"im_{i:d}_{j:02d}{letter(k)}.png", [lambda i: f"{i:d}", lambda i: f"{i:02d}", letter], 3),
    "%d_%02d_%d": (lambda i, j, k: f"im_{i:d}_{j:02d}_{k:d}.png", [lambda i: f"{i:d}", lambda i: f"{i:02d}", lambda i: f"{i:d}"], 3),
}
# separator written in the names of the PIV results before the third index
SEP3 = {"%d_%02dab": "", "%d_%02d_%d": "_"}


def group_indices(sel, i, ranges):
    """the images of the group i; sel: one (start, stop) expression or a number for each index"""
    dims = []
    for s, (a, b) in zip(sel, ranges):
        lo, hi = s
        lo = a if lo is None else eval(str(lo), {"i": i})
        hi, _, step = str(hi).partition(":")
        hi = b if hi == "None" else eval(hi, {"i": i})
        dims.append(range(lo, hi, int(step or 1)))
    return list(product(*dims))


def expected_groups(sel, exist, ranges, start, stop, step):
    def complete(i):
        g = group_indices(sel, i, ranges)
        return g and all(x in exist for x in g)

    if start == "first":
        start = 0
        while not complete(start):
            start += 1
            if start > 100:
                return []
    groups, i = [], start
    while complete(i) and (stop is None or i < stop):
        if (i - start) % step == 0:
            groups.append(group_indices(sel, i, ranges))
        i += 1
    return groups


def str_subset(sel):
    parts = []
    for lo, hi in sel:
        if lo is not None and hi is not None and str(hi) == f"{lo}+1" or isinstance(lo, int) and hi == lo + 1:
            parts.append(str(lo))
        else:
            parts.append(f"{'' if lo is None else lo}:{'' if hi is None else hi}")
    return ", ".join(parts)


def name_piv(scheme, group):
    fmts = SCHEMES[scheme][1]
    out = ""
    for d, f in enumerate(fmts):
        vals = sorted({g[d] for g in group})
        s = f(vals[0])
        if len(vals) > 1:
            s += ("" if s.isalpha() else "-") + f(vals[-1])
        if d > 1:
            out += SEP3[scheme]
        out += s
    return "piv_" + out + ".h5"


def content(kind, path):
    """names of the images from which a result was computed"""
    import h5py

    if path.suffix == ".h5" and kind in ("piv", "bos", "optical_flow"):
        with h5py.File(path, "r") as f:
            names = f["couple"].attrs["names"]
        if isinstance(names, bytes):
            names = names.decode()
        return tuple(eval(names))
    return None


def case_run(rec, case):
    _, kind, scheme, ranges, missing, sel, kw, fmt = case
    kw = dict(kw)
    form_path, form_ref = kw.pop("form", ("file", "absolute"))
    cwd = os.getcwd()
    try:
        _case_run(rec, kind, scheme, ranges, missing, sel, kw, fmt, form_path, form_ref)
    finally:
        os.chdir(cwd)


def _case_run(rec, kind, scheme, ranges, missing, sel, kw, fmt, form_path, form_ref):
    T = data.topo_class(kind)
    name = SCHEMES[scheme][0]
    indices = [x for x in product(*(range(*r) for r in ranges)) if x not in missing]
    exist = set(indices)
    what = f"{kind} {scheme} {ranges} missing={missing} {sel} {kw} {fmt} path {form_path} reference {form_ref}"
    ref = None
    with tmpdir() as d, quiet():
        os.chdir(d)
        values = {x: n for n, x in enumerate(indices)}
        (d / "im").mkdir()
        for x, n in values.items():
            data.write_png(d / "im" / name(*x), image(n))
        # unrelated files
        if form_path in ("file", "relative", "glob"):
            (d / "im" / "notes.txt").write_text("x")
        if scheme != "%02d" and form_path in ("file", "relative"):
            data.write_png(d / "im" / "other.png", data.img(99))
        params_kw = dict(kw)
        if kind in data.FROM_SERIES:
            start, stop, step = kw.get("ind_start", "first"), kw.get("ind_stop"), kw.get("ind_step", 1)
            groups = expected_groups(sel, exist, ranges, start, stop, step)
            params_kw["str_subset"] = kw.get("str_subset") or str_subset(sel)
        else:
            # a set of images: slices
            dims = [range(*r)[slice(*(None if v is None else (v - r[0] if n < 2 else v) for n, v in enumerate(s)))] for s, r in zip(sel, ranges)]
            groups = [(x,) for x in product(*dims) if x in exist]
            if any(s != (None, None, None) for s in sel):
                params_kw["str_subset"] = ",".join(
                    ":".join("" if v is None else str(v) for v in (s if s[2] is not None else s[:2])) for s in sel
                )
        images = [tuple(name(*x) for x in g) for g in groups]
        if kind == "bos":
            ref = name(*indices[0])
            others = {"subdir": "im/ref/" + ref, "updir": ref, "ext": "im/" + ref.replace(".png", ".tif")}
            if form_ref in others:
                # another file (with the indices of an image)
                path_ref = d / others[form_ref]
                path_ref.parent.mkdir(exist_ok=True)
                data.write_png(path_ref, image(200))
                params_kw["reference"] = str(path_ref)
                ref = path_ref.name
            else:
                params_kw["reference"] = {"absolute": str(d / "im" / ref), "relative": "im/" + ref, "dots": "im/../im/" + ref, "name": ref, "number": 0}[form_ref]
                images = [g for g in images if g != (ref,)]
                groups = [g for g in groups if name(*g[0]) != ref]

        def make(how):
            first = d / "im" / name(*indices[0])
            path = {"file": first, "relative": first.relative_to(d), "dir": d / "im", "reldir": "im", "dots": "im/../im", "glob": d / "im" / (first.name[:1] + "*.png")}[form_path]
            p = data.make_params(kind, path, how, d / "res", **params_kw)
            if fmt is not None:
                p.saving.format = fmt
            return T(p)

        t = make("recompute")
        exc = data.compute(t, "exec_sequential")
        check(exc is None, lambda: f"{what}: {exc!r}", "raised")
        got = sorted(f for f in os.listdir(d / "res") if not f.startswith(data.BOOKKEEPING))
        if kind in ("piv", "optical_flow"):
            expected = {name_piv(scheme, g): im for g, im in zip(groups, images)}
        elif kind == "bos":
            expected = {}
            for (im,) in images:
                base = im.rsplit(".", 1)[0]
                i0 = next(i for i, c in enumerate(base) if c.isdigit())
                if i0 > 0 and not base[i0 - 1].isalpha():
                    i0 -= 1
                expected["bos" + base[i0:] + ".h5"] = (ref, im)
        elif kind == "preproc":
            expected = {f if fmt in (None, "img") else f.rsplit(".", 1)[0] + "." + fmt: None for im in images for f in im}
        else:
            expected = {im[0]: None for im in images}
        n_results = len(images) if kind != "preproc" else len(expected)
        check(len(expected) == n_results, lambda: f"{what}: (oracle) names not distinct", "oracle")
        check(got == sorted(expected), lambda: f"{what}: results {got} instead of {sorted(expected)}", "names")
        check(len(t.results) == len(images), lambda: f"{what}: {t.results} for {images}", "results")
        for f, im in expected.items():
            c = content(kind, d / "res" / f)
            if c is not None and im is not None:
                check(c == im, lambda: f"{what}: {f} computed with {c} instead of {im}", "content")
        if kind in ("im2im", "preproc") and fmt in (None, "img"):
            from fluidimage.util import imread

            for g, ims in zip(groups, images):
                for x, im in zip(g, ims):
                    check(np.array_equal(imread(d / "res" / im), image(values[x])), lambda: f"{what}: content of {im}", "content")
        # the complete mode recognizes these results
        before = data.results_dir(d / "res")
        t = make("complete")
        todo = t.compute_indices_to_be_computed()
        check(not todo, lambda: f"{what}: results not recognized: {todo}", "recognized")
        for i, f in enumerate(sorted(expected)):
            if i > 2 or (kind == "preproc" and len(images) != len(expected)):
                break
            (d / "res" / f).unlink()
            t = make("complete")
            exc = data.compute(t, "exec_sequential")
            check(exc is None, lambda: f"{what}: complete without {f}: {exc!r}", "raised")
            check(data.results_dir(d / "res") == before, lambda: f"{what}: complete without {f}", "complete")
            check(len(t.results) == 1, lambda: f"{what}: complete without {f}: computed {t.results}", "complete")
        rec.count("evaluations")
        if len(images) > 1:
            rec.nontrivial(what)
        rec.sample(dict(case=what, results=got))


def case(rec, case):
    case_run(rec, case)


def cases(quick):
    out = []
    i, i1, i2, i3 = "i", "i+1", "i+2", "i+3"
    one = [s for s, v in SCHEMES.items() if v[2] == 1]
    two = [s for s, v in SCHEMES.items() if v[2] == 2]
    three = [s for s, v in SCHEMES.items() if v[2] == 3]
    for scheme in one:
        rr = [((0, 5),), ((3, 8),)]
        rr.append(((8, 12),) if scheme == "im-%d" else ((98, 102),) if "%03" in scheme else ((7, 12),))
        for ranges in rr:
            (a, b), = ranges
            for missing in ((), ((a + 3,),)):
                kws = [{}, dict(ind_start=a + 1), dict(ind_stop=a + 2), dict(ind_step=2), dict(ind_start=a + 1, ind_step=2)]
                if not missing:
                    kws.append(dict(ind_start=a, ind_stop=a + 3, ind_step=3))
                if quick and scheme not in ("im%02d", "im-%d"):
                    kws = kws[:2]
                for kw in kws:
                    for sel in (((i, i2),), ((i, "i+3:2"),), ((i, "i+4:2"),), ((i, "i+4:3"),)):
                        if (missing or "ind_stop" in kw) and sel != ((i, i2),):
                            continue
                        out.append(("run", "piv", scheme, ranges, missing, sel, kw, None))
                    out.append(("run", "preproc", scheme, ranges, missing, ((i, i1),), kw, "img"))
                out.append(("run", "preproc", scheme, ranges, missing, ((i, i1),), {}, "h5"))
                # shifted and multiplied indices, name of the default
                out.append(("run", "piv", scheme, ranges, missing, (("i+1", "i+3"),), dict(ind_start=a), None))
                out.append(("run", "piv", scheme, ranges, (), (("2*i", "2*i+2"),), {}, None))
                out.append(("run", "preproc", scheme, ranges, (), (("3*i", "3*i+3"),), {}, "img"))
                if scheme in ("im%02d", "%02d"):
                    out.append(("run", "optical_flow", scheme, ranges, missing, ((i, i2),), {}, None))
                for s in ((None, None, None), (a + 1, None, None), (None, a + 3, None), (a, a + 4, 2), (a + 1, a + 4, 3), (a + 1, a + 2, None)):
                    for kind in ("im2im", "bos"):
                        if missing:
                            continue  # (a complete set of images is assumed)
                        out.append(("run", kind, scheme, ranges, missing, (s,), {}, None))
    forms_ref = ("absolute", "relative", "dots", "name", "number", "subdir", "updir", "ext")
    for scheme in ("im%02d", "%02d", "im-%d", "%02dab", "%03d_%d"):
        n = (None, None, None)
        ranges = ((0, 4),) if SCHEMES[scheme][2] == 1 else ((0, 2), (0, 2))
        for form_path, form_ref in product(("file", "relative", "dir", "reldir", "dots", "glob"), forms_ref):
            out.append(("run", "bos", scheme, ranges, (), (n,) * len(ranges), dict(form=(form_path, form_ref)), None))
        for form_path in ("relative", "dir", "reldir", "dots", "glob"):
            kw = dict(form=(form_path, None))
            out.append(("run", "im2im", scheme, ranges, (), (n,) * len(ranges), kw, None))
            sel = ((i, i2),) + ((0, 1),) * (len(ranges) - 1)
            out.append(("run", "piv", scheme, ranges, (), sel, kw, None))
            out.append(("run", "preproc", scheme, ranges, (), ((i, i1),) + sel[1:], kw, "img"))
    for scheme in two:
        rr = [((1, 5), (0, 2)), ((0, 4), (0, 3))]
        if scheme == "%d-%02d":
            rr.append(((8, 12), (9, 11)))
        for ranges in rr:
            (a, b), (c, e) = ranges
            for sel in (((i, i1), (c, c + 2)), ((i, i2), (c, c + 1)), ((i, i2), (c + 1, c + 2)), ((a, a + 2), (i, i1)), ((a + 1, a + 2), (i, i2))):
                for kw in ({}, dict(ind_step=2)):
                    out.append(("run", "piv", scheme, ranges, (), sel, kw, None))
                if scheme in ("%02dab", "%02dAB"):
                    out.append(("run", "optical_flow", scheme, ranges, (), sel, {}, None))
            for missing in (((a + 2, c + 1),),):
                out.append(("run", "piv", scheme, ranges, missing, ((i, i1), (c, c + 2)), {}, None))
                out.append(("run", "piv", scheme, ranges, missing, ((i, i2), (c, c + 1)), {}, None))
            for sel in (((i, i1), (c, c + 1)), ((i, i1), (None, None)), ((a, a + 1), (i, i1))):
                out.append(("run", "preproc", scheme, ranges, (), sel, {}, "img"))
            n = (None, None, None)
            for sel in ((n, n), ((a + 1, None, None), n), (n, (c, c + 1, None)), ((a, a + 4, 2), (c + 1, c + 2, None)), ((a + 1, a + 2, None), n)):
                for kind in ("im2im", "bos"):
                    out.append(("run", kind, scheme, ranges, (), sel, {}, None))
    for scheme in three:
        ranges = ((1, 3), (8, 12), (0, 2))
        for sel in (((1, 2), (i, i1), (0, 2)), ((2, 3), (i, i2), (1, 2)), ((1, 2), (9, 10), (i, i2)), ((i, i2), (8, 9), (0, 1)), ((i, i1), (10, 11), (0, 2))):
            out.append(("run", "piv", scheme, ranges, (), sel, {}, None))
            out.append(("run", "optical_flow", scheme, ranges, (), sel, {}, None))
        n = (None, None, None)
        for sel in ((n, n, n), ((1, 2, None), n, (0, 1, None))):
            for kind in ("im2im", "bos"):
                out.append(("run", kind, scheme, ranges, (), sel, {}, None))
    seen, uniq = set(), []
    for c in out:
        if repr(c) not in seen:
            seen.add(repr(c))
            uniq.append(c)
    return uniq


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=120)
