"""P07: mode "complete": exactly the missing results are computed, the existing ones stay"""
import os
from itertools import combinations, product

from mc import data
from mc.common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "Explicit enumeration of the states of a result directory (all the subsets of already "
    "computed results) for each topology and input selection, one `complete` computation from "
    "each state with several executors, and all histories of 2 or 3 operations (computation with "
    "a set of failing items, deletion of results, new images, recompute, complete) on the image "
    "to image topology. Non trivial: some results exist and some are missing."
)
ASSUMPTIONS = ["<= 5 items per directory", "a result exists when its file exists (partial files: see P08)"]

MARK = b"previously computed\n"


def reference(kind, d, names, kw, shape):
    data.make_images(d / "im", names, shape=shape)
    T = data.topo_class(kind)
    t = T(data.make_params(kind, d / "im", "recompute", d / "ref", **kw))
    exc = data.compute(t, "exec_sequential")
    check(exc is None, f"{kind} {kw}: {exc!r}", "sequential")
    return data.results_dir(d / "ref")


def mark(path):
    """replace the content of an existing result: recomputing it would be visible"""
    path.write_bytes(MARK)
    os.utime(path, ns=(10**18, 10**18))


def is_marked(path):
    return path.read_bytes() == MARK and path.stat().st_mtime_ns == 10**18


def case_subsets(rec, case):
    _, kind, names, kw, executors, shape = case
    T = data.topo_class(kind)
    with tmpdir() as d, quiet():
        ref = reference(kind, d, names, kw, shape)
        files = sorted(ref)
        n = len(files)
        for m in range(1 << n):
            exist = [f for i, f in enumerate(files) if m >> i & 1]
            for ex, nb in executors:
                what = f"{kind} {kw} existing={exist} {ex}"
                res = d / f"res{m}{ex}{nb}"
                res.mkdir()
                for f in exist:
                    mark(res / f)
                t = T(data.make_params(kind, d / "im", "complete", res, **kw))
                exc = data.compute(t, ex, nb)
                check(exc is None, f"{what}: raised {exc!r}", "raised")
                for f in exist:
                    check((res / f).exists() and is_marked(res / f), f"{what}: existing {f} was modified", "existing")
                    mark(res / f)
                missing = sorted(set(files) - set(exist))
                for f in exist:
                    (res / f).unlink()
                got = data.results_dir(res)
                check(sorted(got) == missing, f"{what}: computed {sorted(got)}, missing: {missing}", "missing")
                check(all(got[f] == ref[f] for f in missing), f"{what}: other content than in a complete computation", "content")
                if hasattr(t, "results"):
                    r = sorted(os.path.basename(str(x)) for x in t.results)
                    check(len(r) == len(missing), f"{what}: topology.results = {r}, missing: {missing}", "results")
                rec.count("evaluations")
                if exist and missing:
                    rec.nontrivial((kind, repr(kw), ex, nb, m))
        rec.sample(dict(kind=kind, kw=kw, results=files))


def case_surf(rec, case):
    """surface tracking (the phase of each image is corrected with the previous one)"""
    _, n, executors = case
    T = data.topo_class("surf")
    with tmpdir() as d, quiet():
        names = data.make_surf_images(d, n)

        def compute(res, how, ex):
            t = T(data.make_params("surf", d / "im", how, res, path_ref=d / "ref"))
            return data.compute(t, *ex)

        exc = compute(d / "ref_res", "recompute", ("exec_sequential", None))
        ref = data.results_dir(d / "ref_res")
        check(exc is None and len(ref) == n, f"surface tracking of {n} images: {exc!r} {sorted(ref)}", "surf-reference")
        files = sorted(ref)
        for m in range(1 << n):
            exist = [f for i, f in enumerate(files) if m >> i & 1]
            for ex in executors:
                what = f"surface tracking, {n} images, existing={exist} {ex}"
                res = d / f"res{m}{ex[0]}"
                res.mkdir()
                for f in exist:
                    mark(res / f)
                exc = compute(res, "complete", ex)
                check(exc is None, f"{what}: raised {exc!r}", "raised")
                modified = [f for f in exist if not (res / f).exists() or not is_marked(res / f)]
                got = {p.name: data.canon_file(p) for p in res.iterdir() if p.name in files and (p.name not in exist or p.name in modified)}
                for f in files:
                    if f not in exist:
                        check(got.get(f) == ref[f], f"{what}: {f} missing or other content than in a complete computation", "surf-content")
                others = [p.name for p in res.iterdir() if p.name not in files and not p.name.startswith(data.BOOKKEEPING)]
                check(not others, f"{what}: other files {others}", "surf-files")
                rec.count("evaluations")
                if exist and len(exist) < n:
                    rec.nontrivial(("surf", n, ex, m))
                for f in modified:
                    check(got.get(f) == ref[f], f"{what}: existing {f} replaced by something else", "surf-content")
                if modified:
                    rec.violation(f"{what}: existing results {modified} were modified", "surf-complete")


# ------------------------------------------------------------------ histories


def case_history(rec, case):
    _, n, first, executors = case
    T = data.topo_class("im2im")
    from fluidimage.util import imread

    def run_ops(ops, ex):
        """ops: ("run", failing, how) | ("delete", i) | ("add",)"""
        with tmpdir() as d, quiet():
            names = data.names_1d(n)
            data.make_images(d / "im", names)
            have = {}  # model: name -> version
            version = 0
            for op in ops:
                what = f"{n} images, {ex}, history {ops}, at {op}"
                if op[0] == "delete":
                    f = d / "res" / names[op[1]]
                    if f.exists():
                        f.unlink()
                    have.pop(names[op[1]], None)
                    continue
                if op[0] == "add":
                    names.append(f"im{len(names):02d}.png")
                    data.write_png(d / "im" / names[-1], data.img(len(names) - 1))
                    continue
                _, failing, how = op
                version += 1
                (d / "faults").write_text("".join(f"{names[i]} raise\n" for i in failing))
                os.environ["MC_FAULTS"] = str(d / "faults")
                t = T(data.make_params("im2im", d / "im", how, d / "res", im2im="mc.data.im2im_faulty"))
                exc = data.compute(t, ex, 2)
                check(exc is None, f"{what}: raised {exc!r}", "raised")
                todo = [x for x in names if how == "recompute" or x not in have]
                done = [x for x in todo if x not in [names[i] for i in failing]]
                if how == "recompute":
                    # the results of previous computations stay when the new one fails
                    pass
                check(sorted(map(str, t.results)) == sorted(done), f"{what}: computed {t.results} instead of {done}", "computed")
                for x in done:
                    have[x] = version
                got = data.results_dir(d / "res")
                check(sorted(got) == sorted(have), f"{what}: files {sorted(got)} instead of {sorted(have)}", "files")
                for x in have:
                    p = d / "res" / x
                    if x in done:
                        i = names.index(x)
                        check((imread(p) == 255 - data.img(i)).all(), f"{what}: content of {x}", "content")
                        mark(p)
                    else:
                        check(is_marked(p), f"{what}: {x} should not have been touched", "touched")

    ops2 = [("run", (), "complete"), ("run", (0,), "complete"), ("run", (n - 1,), "complete"), ("run", (), "recompute"),
            ("delete", 0), ("delete", n - 1), ("add",)]
    for ex in executors:
        for second in ops2:
            for third in ops2:
                ops = [first, second, third]
                if third[0] != "run":
                    ops.append(("run", (), "complete"))
                run_ops(ops, ex)
                rec.count("evaluations")
                rec.count("histories")
                if any(o[0] != "run" or o[1] for o in ops):
                    rec.nontrivial((n, ex, ops))


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


def cases(quick):
    seq, asy, aseq = ("exec_sequential", None), ("exec_async", 2), ("exec_async_sequential", None)
    masy, msync, sub = ("multi_exec_async", 2), ("multi_exec_sync", 2), ("multi_exec_subproc", 2)
    sv = ("exec_async_servers_threading", 2)
    s8, s32 = (8, 8), (32, 32)
    all_ex = [seq, asy, aseq, masy, msync]
    out = [("surf", 3, [seq]), ("surf", 3, [asy])]
    N = 4 if quick else 5
    for ex in all_ex:
        out.append(("subsets", "im2im", data.names_1d(N), {}, [ex], s8))
        out.append(("subsets", "preproc", data.names_1d(N), {}, [ex], s8))
        out.append(("subsets", "piv", data.names_1d(N), {}, [ex], s32))
        out.append(("subsets", "bos", data.names_1d(N), {}, [ex], s32))
    for ex in [seq, masy]:
        out.append(("subsets", "piv", data.names_2d(3), dict(str_subset="i, 0:2"), [ex], s32))
        out.append(("subsets", "piv", data.names_2d(4), dict(str_subset="i:i+2, 1"), [ex], s32))
        out.append(("subsets", "piv", data.names_1d(8), dict(ind_step=2, ind_start=1), [ex], s32))
        out.append(("subsets", "piv", data.names_1d(12, start=8, fmt="im{}.png"), dict(ind_start=8, ind_stop=11), [ex], s32)
                   if False else ("subsets", "piv", data.names_1d(5, start=98, fmt="im_{:04d}.png"), {}, [ex], s32))
        out.append(("subsets", "im2im", data.names_2d(2), {}, [ex], s8))
        out.append(("subsets", "im2im", data.names_1d(7), dict(str_subset="1:7:2"), [ex], s8))
        out.append(("subsets", "bos", data.names_2d(2), dict(reference="im00a.png"), [ex], s32))
        out.append(("subsets", "bos", data.names_1d(4), dict(reference=-1), [ex], s32))
        out.append(("subsets", "preproc", data.names_2d(2), {}, [ex], s8))
    out.append(("subsets", "im2im", data.names_1d(2), {}, [sub], s8))
    out.append(("subsets", "piv", data.names_1d(3), {}, [sub], s32))
    for first in [("run", (), "recompute"), ("run", (0,), "recompute"), ("run", (1,), "complete"), ("run", (0, 1), "complete")]:
        out.append(("history", 3, first, ["exec_sequential"]))
        out.append(("history", 2, first, ["exec_async_sequential"]))
        if not quick:
            out.append(("history", 3, first, ["multi_exec_async"]))
            out.append(("history", 4, first, ["exec_async"]))
    if not quick:
        out.append(("subsets", "im2im", data.names_1d(4), {}, [sub], s8))
        out.append(("subsets", "bos", data.names_1d(3), {}, [sub], s32))
        out.append(("subsets", "preproc", data.names_1d(3), {}, [sub], s8))
        out.append(("subsets", "im2im", data.names_1d(6), {}, [seq, masy], s8))
        out.append(("subsets", "optical_flow", data.names_1d(4), {}, [seq], (64, 64)))
    return out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=300, chunk=1)
