"""P16: the works are pure functions, whatever the history of the object"""
import copy
import itertools

from ..common import check, tmpdir
from ..piving import (
    BOSKind,
    FlowKind,
    PIV_CONFIGS,
    PIVKind,
    PreprocKind,
    SurfaceKind,
    arrays,
    couple_arrays,
    differences,
    frozen,
)

LEVEL = "model_checking"
RULE = (
    "for each work and each configuration, all the sequences of computations up to a length over an "
    "alphabet of inputs (normal, degenerate, other types), performed with one real work object "
    "and compared with the result of a new work object for each input"
)
ASSUMPTIONS = ["results are compared up to rounding errors (0.1 %), inputs and earlier results exactly"]

PREPROC = (
    "sliding_median+global_threshold",
    "sliding_minima+gamma_correction",
    "sliding_percentile+rescale_intensity",
    "temporal_median+rescale_intensity_tanh",
    "temporal_minima+equalize_hist_adapt",
    "temporal_percentile+sharpen",
    "equalize_hist_global",
    "equalize_hist_local",
    "adaptive_threshold",
)
PREPROC_CV = ("sliding_median+global_threshold", "sliding_minima")


class OtherSizes(PIVKind):
    """images of two sizes given to the same work"""

    alphabet = "as"


def cases(quick):
    out = []
    for cfg in PIV_CONFIGS:
        out.append(("piv", cfg))
    out += [("size", "fftw"), ("size", "fftw-2-tps")]
    out += [("bos", c) for c in ("plain", "mask")]
    out += [("flow", c) for c in ("plain", "mask")]
    out += [("preproc", c) for c in PREPROC]
    out += [("preproc-cv", c) for c in PREPROC_CV]
    out += [("surf", c) for c in ("plain", "crop", "height-red", "crop-height", "pos")]
    depth = 3 if quick else 4
    split = []
    for kind, cfg in out:
        # one case per first letter
        letters = make_kind(kind, cfg, None).alphabet
        for first in letters:
            split.append((kind, cfg, first, depth if kind != "surf" else min(depth, 3)))
    return split


def make_kind(kind, cfg, path, **kw):
    if kind == "piv":
        return PIVKind(cfg, **kw)
    if kind == "size":
        return OtherSizes(cfg)
    if kind == "flow":
        return FlowKind(cfg)
    cls = dict(bos=BOSKind, preproc=PreprocKind, surf=SurfaceKind)[kind.split("-")[0]]
    if path is None:
        return cls
    if kind == "preproc-cv":
        return cls(cfg, path, backend="opencv")
    return cls(cfg, path)


def inputs_of(inp):
    if hasattr(inp, "get_path_arrays"):
        return {p: open(p, "rb").read() for p in inp.get_path_arrays()}
    return frozen(inp)


def case(rec, case):
    kindname, cfg, first, depth = case
    with tmpdir("pure") as d:
        kind = make_kind(kindname, cfg, d)
        ref = {}
        for letter in kind.alphabet:
            work = kind.make()
            check(work is not None, f"no work for {cfg}")
            res = kind.compute(work, kind.input(letter))
            if kindname in ("preproc", "preproc-cv", "surf", "bos"):
                check(not isinstance(res, BaseException), lambda: f"{cfg}: {letter}: {res!r}", "error")
            if kindname == "piv" and letter in "ab":
                check(not isinstance(res, BaseException), lambda: f"{cfg}: {letter}: {res!r}", "error")
            ref[letter] = arrays(res)
            rec.nontrivial((kindname, cfg, letter, frozen(res)))
            rec.count("states")
        key = "other-sizes" if kindname == "size" else f"{kindname}-history"
        for tail in itertools.product(kind.alphabet, repeat=depth - 1):
            word = (first,) + tail
            work = kind.make()
            kept = []
            for n, letter in enumerate(word):
                inp = kind.input(letter)
                before = inputs_of(inp)
                res = kind.compute(work, inp)
                check(
                    inputs_of(inp) == before,
                    lambda: f"{cfg}: the input {letter!r} is modified by the computation (history {word[: n + 1]})",
                    f"{kindname}-input",
                )
                diff = differences(ref[letter], arrays(res))
                check(
                    diff is None,
                    lambda: f"{cfg}: the result for {letter!r} depends on the previous computations {word[:n]}: {diff}",
                    key,
                )
                kept.append((letter, res, frozen(res)))
                rec.count("transitions")
            for letter, res, fr in kept:
                check(
                    frozen(res) == fr,
                    lambda: f"{cfg}: result for {letter!r} modified by later computations (history {word})",
                    f"{kindname}-kept",
                )
            rec.count("traces")
            rec.count("states", len(word))
        rec.sample(dict(work=kindname, config=cfg, word="".join(word)))


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=800, chunk=1)
