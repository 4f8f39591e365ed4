"""P13: the user's image function is applied once to each image and its result is used"""
import hashlib
import itertools
import os
import re
from pathlib import Path

import numpy as np

from .. import data
from ..common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "Each topology using a function of the user x form of the function (function, class, name of a function, name of a class, with each tuple "
    "of arguments) x selection of the images (overlapping groups, one or two indices) x executor x saving mode with each set of results "
    "already there x type of image; failures of the function for each image. Every call of the function is recorded (name, image, process, object); the "
    "results are compared with the ones obtained without the function from images transformed beforehand. Non trivial: overlapping groups, "
    "classes with arguments, several processes, results already there."
)
ASSUMPTIONS = ["the function of the user is deterministic and depends on the name of the image and on the image"]

# ---------------------------------------------------------------- functions of the user


def index(name):
    return int(re.search(r"\d+", name).group())


def transform(name, image, a=1, b="x"):
    """what the functions do: depends on the name, on the image, on the arguments"""
    i = index(name) + (1 if "b" in os.path.splitext(name)[0] else 0)
    full = np.iinfo(image.dtype).max
    out = (image if i % 2 else full - image) // a
    if b == "y":
        out = out[:, ::-1]
    return np.ascontiguousarray(out).astype(image.dtype)


def digest(image):
    return hashlib.sha1(repr((image.shape, str(image.dtype))).encode() + np.ascontiguousarray(image).tobytes()).hexdigest()[:12]


def record(path, image, obj="f"):
    d = os.environ.get("MC_CALLS")
    if d:
        name = os.path.basename(str(path))
        fd = os.open(d, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, f"{name}|{digest(image)}|{os.getpid()}|{obj}\n".encode())
        os.close(fd)
        if os.environ.get("MC_FAIL") == name:
            raise ValueError(f"planned failure {name}")


def func(tup):
    path, image = tup
    record(path, image)
    return transform(os.path.basename(str(path)), image)


def func_inplace(tup):
    """the result is the array given, modified"""
    path, image = tup
    record(path, image)
    try:
        image[...] = transform(os.path.basename(str(path)), image)
    except ValueError:
        return transform(os.path.basename(str(path)), image)
    return image


class Cls:
    """keeps its arguments and the names of the images which it processed"""

    def __init__(self, a=1, b="x"):
        self.a, self.b = a, b
        self.names = []

    def calcul(self, tup):
        path, image = tup
        self.names.append(os.path.basename(str(path)))
        record(path, image, f"{self.a}{self.b}")
        return transform(os.path.basename(str(path)), image, self.a, self.b)


class Sub(Cls):
    """a class inheriting its method"""


HERE = "mc.checks.P13."
FORMS = {
    "function": (func, ()),
    "inplace": (func_inplace, ()),
    "name": (HERE + "func", ()),
    "class": (Cls, ()),
    "class args": (Cls, (2, "y")),
    "class name": (HERE + "Cls", ()),
    "class name args": (HERE + "Cls", (2, "y")),
    "class name one arg": (HERE + "Sub", (3,)),
}


def closure(k):
    def f(tup):
        path, image = tup
        record(path, image)
        return transform(os.path.basename(str(path)), image)

    return f


def form_of(form):
    if form == "closure":
        return closure(1), ()
    if form == "lambda":
        return (lambda tup: func(tup)), ()
    return FORMS[form]


def typed(tup):
    """result of another type, given by the environment"""
    path, image = tup
    record(path, image)
    return result_typed(image, os.environ["MC_DTYPE"])


def result_typed(image, dtype):
    out = image.astype(dtype)
    if np.dtype(dtype).kind == "f":
        return out / np.array(4).astype(dtype) - np.array(10).astype(dtype)
    if np.dtype(dtype).itemsize > 1:
        return out * np.array(100).astype(dtype)
    return out // np.array(2).astype(dtype)


# ---------------------------------------------------------------- images and computations

SHAPE = (32, 36)


def pattern(i, shape=None):
    return data.img(i, shape=SHAPE)


def pattern16(i, shape=None):
    return data.img(i, shape=SHAPE).astype(np.uint16) * 300


def read(p):
    from PIL import Image

    return np.array(Image.open(str(p)))


def setup(d, kind, names, dtype, args):
    """images in d/im, transformed images in t/im (same last directory)"""
    (d / "t").mkdir()
    if kind == "surf":
        names = data.make_surf_images(d, len(names))
        (d / "t" / "im").mkdir()
    else:
        data.make_images(d / "im", names, func=pattern16 if dtype == "uint16" else pattern)
        (d / "t" / "im").mkdir()
    given = {}
    for name in names:
        im = read(d / "im" / name)
        if dtype == "uint16":
            im = im.astype(np.uint16)
        given[name] = digest(im)
        data.write_png(d / "t" / "im" / name, transform(name, im, *args))
    return names, given


def params_of(d, src, kind, how, saving, kw, im2im, args):
    kw = dict(kw)
    if kind == "surf":
        kw["path_ref"] = d / "ref"
    with quiet():
        if kind == "im2im":
            p = data.make_params(kind, src, how, saving, **kw, im2im=im2im or (HERE + "nothing"))
        else:
            p = data.make_params(kind, src, how, saving, **kw)
    if kind == "preproc":
        p.tools.sequence = ["gamma_correction"]
        p.tools.gamma_correction.enable = True
        p.tools.gamma_correction.gamma = 0.8
    if im2im is not None:
        node = {"im2im": p, "preproc": getattr(p, "im2im", None)}.get(kind) if kind in ("im2im", "preproc") else p.preproc
        node.im2im = im2im
        node.args_init = args
    return p


def nothing(tup):
    return tup[1]


def run_topo(kind, params, executor, nb=1):
    with quiet():
        topo = data.topo_class(kind)(params)
    exc = data.compute(topo, executor, nb)
    return topo, exc


def canon(path):
    if path.suffix != ".h5":
        im = read(path)
        return digest(im)
    return data.canon_file(path)


def results(res):
    out = {}
    if not Path(res).exists():
        return out
    for p in sorted(Path(res).iterdir()):
        if p.is_file() and not p.name.startswith(data.BOOKKEEPING):
            out[p.name] = canon(p)
    return out


def calls(path):
    if not path.exists():
        return []
    return [tuple(line.split("|")) for line in path.read_text().splitlines()]


def groups(kind, names, kw):
    """result number -> images used; computed here from the parameters (small set of selections)"""
    ref = kw.get("reference", 0)
    if kind in ("im2im", "surf"):
        sel = names
        if "str_subset" in kw:
            sel = names[slice(*[int(x) for x in kw["str_subset"].split(":")])]
        return [(n,) for n in sel]
    if kind == "bos":
        refname = ref if isinstance(ref, str) else names[ref]
        sel = names
        if "str_subset" in kw:
            sel = names[slice(*[int(x) for x in kw["str_subset"].split(":")])]
            refname = ref if isinstance(ref, str) else sel[ref]
        return [(refname, n) for n in sel if n != refname]
    sub = kw.get("str_subset")
    start, stop, step = kw.get("ind_start", 0), kw.get("ind_stop"), kw.get("ind_step", 1)
    out = []
    if sub == "i, 0:2":
        inds = sorted({index(n) for n in names})[slice(start, stop, step)]
        for i in inds:
            out.append(tuple(n for n in names if index(n) == i))
        return out
    if sub == "i-1:i+2":
        width = (-1, 2)
    elif sub == "i:i+3:2":
        return [(names[i], names[i + 2]) for i in range(start, (stop if stop is not None else len(names) - 2), step)]
    elif sub is None and kind in ("piv", "optical_flow"):
        width = (0, 2)
    elif sub == "i:i+2":
        width = (0, 2)
    else:
        assert sub in ("i:i+1",) or (sub is None and kind == "preproc"), sub
        width = (0, 1)
    last = stop if stop is not None else len(names) - width[1] + 1
    for i in range(start, last, step):
        out.append(tuple(names[i + width[0]: i + width[1]]))
    return out


def case_apply(rec, case):
    _, kind, names, kw, forms, executors, dtype = case
    for form in forms:
        im2im, args = form_of(form)
        for ex, nb in executors:
            with tmpdir() as d:
                names_, given = setup(d, kind, names, dtype, args)
                what = f"{kind} {len(names_)} images {dtype} {kw} function given as {form} {args} {ex} {nb}"
                os.environ.pop("MC_CALLS", None)
                os.environ.pop("MC_FAIL", None)
                _, exc = run_topo(kind, params_of(d, d / "t" / "im", kind, "recompute", d / "t" / "res", kw, None, ()), "exec_sequential")
                check(exc is None, f"{what}: transformed images: {exc!r}", "raise")
                ref = results(d / "t" / "res")
                log = d / "calls"
                os.environ["MC_CALLS"] = str(log)
                topo, exc = run_topo(kind, params_of(d, d / "im", kind, "recompute", d / "res", kw, im2im, args), ex, nb)
                os.environ.pop("MC_CALLS")
                check(exc is None, f"{what}: raised {exc!r}", "raise")
                got = results(d / "res")
                check(ref and got == ref, lambda: f"{what}: missing {sorted(set(ref) - set(got))}, added {sorted(set(got) - set(ref))}, different from the result "
                      f"without function for transformed images: {[k for k in ref if k in got and got[k] != ref[k]]}", "result")
                gr = groups(kind, names_, kw)
                used = {n for g in gr for n in g}
                ref_name = gr[0][0] if kind == "bos" else None
                check_calls(what, calls(log), used, given, args, form, ex, nb, ref_name)
                rec.count("evaluations")
                if "arg" in form or nb > 1 or kw:
                    rec.nontrivial(what)
    rec.sample(what)


def check_calls(what, done, used, given, args, form, ex, nb, ref=None):
    check({c[0] for c in done} == used, lambda: f"{what}: function called for {sorted({c[0] for c in done})}, images used {sorted(used)}", "calls")
    for c in done:
        check(c[1] == given[c[0]], f"{what}: for {c[0]}, the function received another image", "image")
        if "class" in form:
            a, b = (tuple(args) + (1, "x")[len(args):])
            check(c[3] == f"{a}{b}", f"{what}: {c[0]} processed by an object initialized with {c[3]}", "object")
    for name in used:
        # with several processes, images at the limits of the parts; with servers, the reference
        several = nb > 1 and (ex.startswith("multi_exec") or (ex == "exec_async_servers" and name == ref))
        pids = [c[2] for c in done if c[0] == name]
        check(len(set(pids)) == len(pids) and (several or len(pids) == 1) , f"{what}: function called {len(pids)} times for {name} (processes {len(set(pids))})", "once")
        # images at the limits of the parts, and the reference, are used by several processes
        check(len(pids) <= nb + 1, f"{what}: function called {len(pids)} times for {name}", "once")


# ---------------------------------------------------------------- results already there


def case_complete(rec, case):
    _, kind, names, kw, form, executors = case
    im2im, args = form_of(form)
    with tmpdir() as d:
        names, given = setup(d, kind, names, "uint8", args)
        os.environ.pop("MC_CALLS", None)
        os.environ.pop("MC_FAIL", None)
        topo, exc = run_topo(kind, params_of(d, d / "im", kind, "recompute", d / "ref_res", kw, im2im, args), "exec_sequential")
        check(exc is None, f"{kind}: raised {exc!r}", "raise")
        ref = results(d / "ref_res")
        gr = groups(kind, names, kw)
        check(len(ref) == len(gr) or kind == "preproc", f"{kind} {kw}: {sorted(ref)}, groups {gr}", "result")
        files = sorted(ref)
        gr = sorted(gr, key=lambda g: (index(g[-1]), g))
        ref_name = gr[0][0] if kind == "bos" else None
        for ex, nb in executors:
            for there in itertools.product((0, 1), repeat=len(files)):
                res = d / f"res{ex}{nb}{''.join(map(str, there))}"
                res.mkdir()
                for f, t in zip(files, there):
                    if t:
                        (res / f).write_bytes((d / "ref_res" / f).read_bytes())
                log = d / "calls"
                log.unlink(missing_ok=True)
                os.environ["MC_CALLS"] = str(log)
                what = f"{kind} {kw} function given as {form}, {ex} {nb}, complete with {[f for f, t in zip(files, there) if t]} already there"
                topo, exc = run_topo(kind, params_of(d, d / "im", kind, "complete", res, kw, im2im, args), ex, nb)
                os.environ.pop("MC_CALLS")
                if all(there):
                    # nothing to be computed: may be said by an exception
                    pass
                else:
                    check(exc is None, f"{what}: raised {exc!r}", "raise")
                check(results(res) == ref, f"{what}: results {sorted(results(res))}", "result")
                used = {n for g, t in zip(gr, there) for n in g if not t}
                if kind == "bos":
                    # the reference is always processed
                    used |= {g[0] for g in gr}
                check_calls(what, calls(log), used, given, args, form, ex, nb, ref_name)
                rec.count("evaluations")
                if any(there):
                    rec.nontrivial(what)
    rec.sample(what)


# ---------------------------------------------------------------- failures


def case_fail(rec, case):
    _, kind, names, kw, form, executors = case
    im2im, args = form_of(form)
    with tmpdir() as d:
        names, given = setup(d, kind, names, "uint8", args)
        os.environ.pop("MC_CALLS", None)
        os.environ.pop("MC_FAIL", None)
        topo, exc = run_topo(kind, params_of(d, d / "im", kind, "recompute", d / "ref_res", kw, im2im, args), "exec_sequential")
        check(exc is None, f"{kind}: raised {exc!r}", "raise")
        ref = results(d / "ref_res")
        gr = sorted(groups(kind, names, kw), key=lambda g: (index(g[-1]), g))
        used = {n for g in gr for n in g}
        ref_name = gr[0][0] if kind == "bos" else None
        for ex, nb in executors:
            for bad in sorted(used):
                if kind == "bos" and bad == gr[0][0]:
                    continue
                res = d / f"res{ex}{nb}{bad}"
                log = d / "calls"
                log.unlink(missing_ok=True)
                os.environ["MC_CALLS"] = str(log)
                os.environ["MC_FAIL"] = bad
                what = f"{kind} {kw} function given as {form} failing for {bad}, {ex} {nb}"
                topo, exc = run_topo(kind, params_of(d, d / "im", kind, "recompute", res, kw, im2im, args), ex, nb)
                os.environ.pop("MC_CALLS")
                os.environ.pop("MC_FAIL")
                if kind == "preproc":
                    kept = {n for g in gr if bad not in g for n in g}
                    want = {f: ref[f] for f in ref if f in kept}
                else:
                    want = {f: ref[f] for f, g in zip(sorted(ref), gr) if bad not in g}
                got = results(res)
                check(exc is None or ex == "exec_sequential", f"{what}: raised {exc!r}", "raise")
                check(got == want, f"{what}: results {sorted(got)} instead of {sorted(want)}", "failure")
                check_calls(what, calls(log), used, given, args, form, ex, nb, ref_name)
                rec.count("evaluations")
                rec.nontrivial(what)
    rec.sample(what)


# ---------------------------------------------------------------- type of the result of the function


def case_dtype(rec, case):
    """what is returned by the function is what is saved; nothing computed again"""
    _, dtype, fmt, there_all, (ex, nb) = case
    from fluidimage.util import imread

    with tmpdir() as d:
        names = data.names_1d(3, fmt="im{:02d}." + fmt)
        data.make_images(d / "im", names, func=pattern)
        os.environ["MC_DTYPE"] = dtype
        os.environ.pop("MC_FAIL", None)
        what0 = f"im2im, function returning images of type {dtype}, {fmt} files, {ex}"
        first = None
        for there in [()] + there_all:
            for f in (d / "res").glob("im*") if (d / "res").exists() else ():
                if index(f.name) not in there:
                    f.unlink()
            log = d / "calls"
            log.unlink(missing_ok=True)
            os.environ["MC_CALLS"] = str(log)
            how = "recompute" if first is None else "complete"
            what = f"{what0}, mode {how} with the results {there}"
            topo, exc = run_topo("im2im", params_of(d, d / "im", "im2im", how, d / "res", {}, HERE + "typed", ()), ex, nb)
            os.environ.pop("MC_CALLS")
            check(exc is None or len(there) == 3, f"{what}: raised {exc!r}", "raise")
            files = sorted(p for p in (d / "res").iterdir() if p.name.startswith("im"))
            check([index(f.name) for f in files] == [0, 1, 2] and all(f.name.startswith(n) for f, n in zip(files, names)), f"{what}: files {[f.name for f in files]}", "dtype-files")
            for f, name in zip(files, names):
                with quiet():
                    got = imread(str(f))
                    want = result_typed(imread(str(d / "im" / name)), dtype)
                check(got.shape == want.shape and np.array_equal(got.astype(float), want.astype(float)), lambda: f"{what}: {f.name} contains {got.dtype} {got.ravel()[:5]}, the function returned {want.ravel()[:5]}", "dtype-values")
            check(topo is None or len(topo.results) == 3 - len(there) or ex.startswith("multi"), f"{what}: results {topo.results}", "dtype-results")
            done = [c[0] for c in calls(log)]
            check(sorted(done) == [n for n in names if index(n) not in there], f"{what}: function called for {sorted(done)}", "dtype-complete")
            rec.count("evaluations")
            rec.nontrivial(what)
            first = 1
    rec.sample(what0)


# ---------------------------------------------------------------- without topology


def case_serie(rec, case):
    """apply_im2im_filter and the work"""
    from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
    from fluidimage.image2image import apply_im2im_filter
    from fluidimage.works.image2image import WorkImage2Image

    _, names, slicing = case
    for form in list(FORMS) + ["closure", "lambda"]:
        im2im, args = form_of(form)
        with tmpdir() as d:
            names, given = setup(d, "im2im", names, "uint8", args)
            what = f"apply_im2im_filter {names} {slicing} function given as {form} {args}"
            with quiet():
                serie = SerieOfArraysFromFiles(d / "im", slicing)
                check(apply_im2im_filter(serie, None) is serie, "apply_im2im_filter without function: the serie is not returned", "serie")
                log = d / "calls"
                os.environ["MC_CALLS"] = str(log)
                ret = apply_im2im_filter(serie, im2im, args)
                os.environ.pop("MC_CALLS")
            want = list(serie.get_name_arrays())
            check(list(ret["names"]) == want, f"{what}: names {ret['names']} instead of {want}", "serie")
            check([os.path.basename(str(p)) for p in ret["paths"]] == want, f"{what}: paths {ret['paths']}", "serie")
            for name, arr in zip(want, ret["arrays"]):
                check(digest(arr) == digest(transform(name, read(d / "im" / name), *args)), f"{what}: {name} differs", "serie")
            check_calls(what, calls(log), set(want), given, args, form, "serie", 1)
            # the work
            with quiet():
                p = data.make_params("im2im", d / "im")
                p.im2im, p.args_init = im2im, args
                work = WorkImage2Image(p)
                for name in names:
                    im = read(d / "im" / name)
                    out = work.calcul((str(d / "im" / name), im.copy()))
                    check(digest(out) == digest(transform(name, im, *args)), f"WorkImage2Image {form} {args}: {name} differs", "work")
            rec.count("evaluations")
            rec.nontrivial(what)
    rec.sample(what)


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


SEQ, ASY, ASQ, SRV = ("exec_sequential", 1), ("exec_async", 2), ("exec_async_sequential", 1), ("exec_async_servers", 2)
MUL = ("multi_exec_async", 2)
ALLF = list(FORMS) + ["closure", "lambda"]
NAMED = [f for f in FORMS if "name" in f]


def run(ctx):
    out, slow = [], []
    sel = {
        "piv": [(data.names_1d(4), {}), (data.names_1d(5), dict(str_subset="i:i+3:2")), (data.names_2d(3), dict(str_subset="i, 0:2")), (data.names_1d(5), dict(ind_start=1, ind_stop=4, ind_step=2))],
        "optical_flow": [(data.names_1d(4), {})],
        "bos": [(data.names_1d(4), {}), (data.names_1d(4), dict(reference=2)), (data.names_1d(5), dict(str_subset="1:4", reference=0)), (data.names_1d(4), dict(reference="im01.png"))],
        "preproc": [(data.names_1d(4), {}), (data.names_1d(5), dict(str_subset="i-1:i+2", ind_start=1)), (data.names_1d(5), dict(str_subset="i:i+2", ind_step=2))],
        "im2im": [(data.names_1d(4), {}), (data.names_1d(5), dict(str_subset="1:5:2")), (data.names_2d(2), {})],
        "surf": [(data.names_1d(3), {})],
    }
    for kind, variants in sel.items():
        for i, (names, kw) in enumerate(variants):
            forms = ALLF if i == 0 else ["function", "class name args"]
            if kind in ("surf", "optical_flow"):
                forms = ["function", "class name"]
            elif kind != "im2im":
                # an object which can't be imported can't be recorded with the results
                forms = [f for f in forms if f in FORMS]
            dtypes = ("uint8", "uint16") if i == 0 and kind in ("piv", "bos", "im2im") else ("uint8",)
            for dtype in dtypes:
                fs = forms if dtype == "uint8" else ["function", "class args"]
                out.append(("apply", kind, names, kw, fs[: len(fs) // 2], [SEQ, ASY] if ctx.quick else [SEQ, ASY, ASQ, ("exec_async", 3)], dtype))
                out.append(("apply", kind, names, kw, fs[len(fs) // 2:], [SEQ, ASY] if ctx.quick else [SEQ, ASY, ASQ, ("exec_async", 3)], dtype))
                if not ctx.quick:
                    out.append(("apply", kind, names, kw, NAMED if kind != "surf" else ["name"], [MUL, ("multi_exec_async", 3), ("multi_exec_sync", 2)], dtype) if kind != "surf" else ("apply", kind, names, kw, ["name"], [ASQ], dtype))
            if kind not in ("surf",):
                slow.append(("apply", kind, names, kw, ["name", "class name args"] if i == 0 or not ctx.quick else ["class name args"], [MUL], "uint8"))
                slow.append(("apply", kind, names, kw, ["name", "class args"] if i == 0 or not ctx.quick else ["name"], [SRV], "uint8"))
    for kind, names, kw in (
        ("piv", data.names_1d(4), {}), ("bos", data.names_1d(4), dict(reference=1)), ("preproc", data.names_1d(4), {}),
        ("im2im", data.names_1d(3), {}), ("optical_flow", data.names_1d(4), {}),
    ):
        out.append(("complete", kind, names, kw, "class name args", [SEQ, ASY] if ctx.quick else [SEQ, ASY, ASQ, ("multi_exec_async", 2)]))
        if kind == "preproc":
            kw = dict(str_subset="i:i+2")
        out.append(("fail", kind, names, kw, "name", [SEQ, ASY] if ctx.quick else [SEQ, ASY, ASQ, SRV, MUL]))
    if not ctx.quick:
        for kind, names, kw in (("piv", data.names_1d(6), {}), ("preproc", data.names_1d(6), {}), ("bos", data.names_1d(6), dict(reference=3)), ("im2im", data.names_1d(6), {})):
            out.append(("complete", kind, names, kw, "class args", [SEQ, ASY]))
            out.append(("fail", kind, names, kw, "class args", [SEQ, ASY, ASQ]))
    for dtype in ("uint8", "uint16", "int16", "int32", "uint32", "int64", "uint64", "float32", "float64", "float16"):
        for fmt in ("png", "tif") if ctx.quick else ("png", "tif", "tiff", "PNG", "bmp"):
            if fmt == "bmp" and dtype != "uint8":
                continue
            for e in [SEQ] if ctx.quick else [SEQ, ASY, MUL]:
                out.append(("dtype", dtype, fmt, [(0, 1, 2), (1, 2), (0, 1), (0,), ()] if ctx.quick else [t for k in (3, 2, 1, 0) for t in itertools.combinations(range(3), k)], e))
    for names, slicing in ((data.names_1d(3), None), (data.names_1d(5), "1:5:2"), (data.names_2d(2), None)):
        out.append(("serie", names, slicing))
    ctx.pmap(case, slow, timeout=120, chunk=1)
    ctx.pmap(case, out, timeout=120, chunk=1)
