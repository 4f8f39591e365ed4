"""P28: a computation described by a file is the one described"""
import itertools
import json
import os
import re
import subprocess
import sys
from pathlib import Path

from .. import data
from ..common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "Each topology x set of parameters x origin of the file (saved by the user, by a previous computation, by a launcher) x saving mode "
    "given in the command line x state of the result directory x executor: results compared with the ones of the Python calls. UVmat: all the "
    "combinations of first and last indices and steps for each mode of pairs, and of the optional sections. Non trivial: mode given in "
    "the command line, parameters which are not the default ones, at least two pairs."
)
ASSUMPTIONS = ["main() of fluidimage.run_from_xml is called in process with the arguments of the command line, except for one real command per topology"]


def run_main(*args):
    from fluidimage.run_from_xml import main

    argv = sys.argv
    sys.argv = ["fluidimage.run_from_xml", *map(str, args)]
    std = sys.stdout, sys.stderr
    try:
        with quiet():
            return main()
    finally:
        sys.argv = argv
        sys.stdout, sys.stderr = std


VARIANTS = {
    "piv": {
        "default": {},
        "series": dict(str_subset="i:i+3:2", ind_start=1, ind_stop=3, ind_step=1),
        "values": {
            "_set": {
                "piv0.shape_crop_im0": (12, 16), "piv0.grid.overlap": 0.25, "mask.strcrop": "2:30, :", "multipass.number": 2,
                "multipass.coeff_zoom": [2], "multipass.use_tps": False, "fix.correl_min": 0.1, "fix.displacement_max": 3,
                "fix.threshold_diff_neighbour": 2.5, "piv0.nb_peaks_to_search": 2, "piv0.particle_radius": 2,
            }
        },
        "preproc": {"_set": {"preproc.im2im": "mc.data.im2im_invert"}},
    },
    "bos": {
        "default": {},
        "reference": dict(reference="im02.png"),
        "subset": dict(str_subset="1:4", reference=0),
        "preproc": {"_set": {"preproc.im2im": "mc.data.im2im_invert", "mask.strcrop": ":, 4:"}},
    },
    "preproc": {
        "default": {},
        "values": {"_set": {"tools.sequence": ["gamma_correction", "sharpen"], "tools.gamma_correction.enable": True, "tools.gamma_correction.gamma": 0.5, "tools.sharpen.enable": True}},
        "series": dict(str_subset="i:i+1", ind_start=1, ind_stop=4, ind_step=2),
    },
    "optical_flow": {
        "default": {},
        "values": {"_set": {"features.blockSize": 8, "features.minDistance": 2, "optical_flow.winSize": (16, 16), "filters.displacement_max": 3.0}},
    },
    "im2im": {
        "default": {},
        "subset": dict(str_subset="1:4:2", im2im="mc.data.im2im_invert"),
        "class": {"im2im": "mc.checks.P28.Scale", "_set": {"args_init": (2, "a")}},
    },
    "mean": {"default": {}, "subset": dict(str_subset="1:4")},
    "surf": {"default": {}},
}


class Scale:
    """class used as im2im"""

    def __init__(self, factor, text):
        assert isinstance(factor, int) and text == "a", (factor, text)
        self.factor = factor

    def calcul(self, tup):
        path, image = tup
        return (image // self.factor).astype(image.dtype)


def images(d, kind):
    if kind == "surf":
        data.make_surf_images(d, 3)
        return dict(path_ref=d / "ref")
    data.make_images(d / "im", data.names_1d(5), shape=(32, 36))
    return {}


def make(d, kind, variant, how, saving=None, postfix=None, kwargs=None):
    kw = dict(VARIANTS[kind][variant])
    values = kw.pop("_set", {})
    if kind == "surf":
        kw["path_ref"] = d / "ref"
    if kind == "mean":
        postfix = None
    with quiet():
        params = data.make_params(kind, d / "im", how, saving, postfix, **kw)
    for path, value in values.items():
        *tags, key = path.split(".")
        p = params
        for tag in tags:
            p = getattr(p, tag)
        setattr(p, key, value)
    if kwargs is not None:
        params._set_child("compute_kwargs", attribs=kwargs)
    return params


def by_python(d, kind, variant, how, saving):
    params = make(d, kind, variant, how, saving)
    with quiet():
        topo = data.topo_class(kind)(params)
    exc = data.compute(topo, "exec_sequential", 1)
    check(exc is None, f"{kind} {variant}: raised {exc!r}", "python")
    return observe(kind, d, topo)


def observe(kind, d, topo):
    res = Path(topo.path_dir_result)
    return results(kind, res)


def results(kind, res):
    if kind == "mean":
        path = Path(str(res) + ".png")
        return {"mean": data.canon_file(path)} if path.exists() else {}
    return data.results_dir(res)


def case_xml(rec, case):
    _, kind, variant, origin, executor, quick = case
    what0 = f"{kind} {variant} parameters of the {origin} {executor}"
    with tmpdir() as d:
        images(d, kind)
        ref = by_python(d, kind, variant, "recompute", d / "ref_res")
        check(ref, f"{what0}: no result", "python")
        for mode, how, before in itertools.product((None, "recompute", "complete", "new_dir"), ("recompute", "complete", "new_dir"), ("nothing", "all", "one missing")):
            if mode is not None and how != "recompute" and (quick or mode == how):
                continue
            if kind in ("mean", "surf") and before == "one missing":
                continue
            if quick and kind == "mean" and before != "nothing":
                continue
            if executor != "exec_sequential" and (mode, how, before) not in ((None, "recompute", "nothing"), ("complete", "recompute", "one missing")):
                continue
            what = f"{what0}, mode {mode} in the command line, {how} in the file, {before} before"
            res = d / "res"
            for p in d.glob("res*"):
                remove(p)
            kwargs = dict(executor=executor, nb_max_workers=2) if origin != "previous job" else None
            params = make(d, kind, variant, how, res, kwargs=kwargs)
            path = d / "params.xml"
            if before != "nothing":
                make_before(d, kind, variant, res, ref, before)
            if origin == "previous job":
                # the parameters recorded by a computation; in the job directory
                if before == "nothing":
                    continue
                jobs = sorted(res.glob("job_*/params.xml"))
                path.write_text(jobs[-1].read_text())
                if how != "recompute":
                    continue
            elif origin == "launcher":
                params = launcher_params(kind, params, executor)
                path.unlink(missing_ok=True)
                params._save_as_xml(path)
            else:
                path.unlink(missing_ok=True)
                params._save_as_xml(path)
            stamp = {p.name: p.read_bytes() for p in res.iterdir() if p.is_file()} if res.exists() else {}
            args = [path] if mode is None else [path, "-m" if quick else "--mode", mode]
            try:
                action = run_main(*args)
            except SystemExit as err:
                check(False, f"{what}: exit {err}", "exit")
            effective = mode or how
            topo = getattr(action, "topology", action)
            got_dir = Path(topo.path_dir_result)
            if effective == "new_dir" and before != "nothing":
                check(got_dir != res and got_dir.name.startswith("res"), f"{what}: results in {got_dir}", "dir")
                now = {p.name: p.read_bytes() for p in res.iterdir() if p.is_file()}
                check(now == stamp, f"{what}: {res} modified", "dir")
            else:
                check(got_dir.resolve() == res.resolve(), f"{what}: results in {got_dir}", "dir")
            got = results(kind, got_dir)
            check(got == ref, lambda: f"{what}: {diff(got, ref)}", "results")
            jobs = sorted(got_dir.glob("job_*/info.xml"))
            from fluidimage import ParamContainer

            if jobs and origin != "previous job" and not (effective == "complete" and before == "all"):
                last = max(jobs, key=lambda p: p.stat().st_mtime_ns)
                info = ParamContainer(path_file=last)
                name = type(topo.executor).__name__
                check(str(info.executor).endswith(name) and executor_class(executor) == name, f"{what}: computed with {info.executor}", "executor")
                if executor != "exec_sequential" and origin != "launcher":
                    check(topo.executor.nb_max_workers == 2, f"{what}: {topo.executor.nb_max_workers} workers", "executor")
            if effective == "complete" and kind not in ("mean", "surf"):
                # nothing computed again
                kept = {k for k, v in stamp.items() if (got_dir / k).exists() and (got_dir / k).read_bytes() == v}
                check(kept == set(stamp), f"{what}: {sorted(set(stamp) - kept)} written again", "complete")
            rec.count("evaluations")
            if mode is not None or variant != "default":
                rec.nontrivial(what)
        rec.sample(what)


def executor_class(name):
    from .. import toy

    cls = toy.exec_class(name)
    return getattr(cls, "__name__", str(cls))


def diff(got, ref):
    return f"missing {sorted(set(ref) - set(got))}, not expected {sorted(set(got) - set(ref))}, different {[k for k in ref if k in got and ref[k] != got[k]]}"


def remove(p):
    import shutil

    assert "/case" in str(p) or "tmp" in str(p), p
    shutil.rmtree(p) if p.is_dir() else p.unlink()


def make_before(d, kind, variant, res, ref, before):
    params = make(d, kind, variant, "recompute", res)
    with quiet():
        topo = data.topo_class(kind)(params)
    exc = data.compute(topo, "exec_sequential", 1)
    check(exc is None, f"{kind}: raised {exc!r}", "python")
    if before == "one missing":
        os.unlink(res / sorted(ref)[-1])


def launcher_params(kind, params, executor):
    """parameters of the launchers of the graphical interface"""
    from fluidimage.topologies import launcher

    cls = {"piv": launcher.TopologyPIVLauncher, "preproc": launcher.TopologyPreprocLauncher}[kind]
    new = cls.create_default_params()
    check_launcher_defaults(cls, new)

    def copy(a, b):
        for k in a._get_key_attribs():
            setattr(b, k, a[k])
        for t in a._tag_children:
            if t in b._tag_children:
                copy(a[t], b[t])

    copy(params, new)
    new.topology.compute.sequential = executor == "exec_sequential"
    return new


def check_launcher_defaults(cls, params):
    import inspect

    for func, p in ((cls.Topology.__init__, params.topology), (cls.Topology.compute, params.topology.compute)):
        for name, par in list(inspect.signature(func).parameters.items())[2:]:
            if par.kind is par.POSITIONAL_OR_KEYWORD and par.default is not par.empty:
                got = getattr(p, name, "missing")
                check(got == par.default, f"{cls.__name__}: {name} = {got!r} instead of {par.default!r}", "launcher-default")


# ---------------------------------------------------------------- errors


def case_errors(rec, case):
    with tmpdir() as d:
        images(d, "im2im")
        params = make(d, "im2im", "default", "recompute", d / "res", kwargs=dict(executor="exec_sequential"))
        path = d / "p.xml"
        params._save_as_xml(path)
        text = path.read_text()
        for new, exc in ((text.replace('"program": "fluidimage"', '"program": "other"'), ValueError), (text.replace("fluidimage", "other"), (ValueError, ImportError))):
            if new == text:
                new = re.sub("program", "prog", text)
            path.write_text(new)
            try:
                run_main(path)
            except exc:
                pass
            else:
                check(False, f"file of an unknown program: no error\n{new}", "errors")
            check(not (d / "res").exists(), "file of an unknown program: computation launched", "errors")
            rec.count("evaluations")
        for action in ("merge", "civ_serie", ""):
            (d / "u.xml").write_text(uvmat_xml(d, "series(Di)", dict(first_i=0), action=action))
            try:
                run_main(d / "u.xml")
            except (NotImplementedError, ValueError, KeyError, AttributeError):
                pass
            else:
                check(False, f"unknown UVmat action {action!r}: no error", "errors")
            rec.count("evaluations")
            rec.nontrivial(action)
        rec.sample("errors")


# ---------------------------------------------------------------- real command


def case_command(rec, case):
    _, kind, variant, mode = case
    with tmpdir() as d:
        images(d, kind)
        ref = by_python(d, kind, variant, "recompute", d / "ref_res")
        params = make(d, kind, variant, "recompute", d / "res", kwargs=dict(executor="exec_async", nb_max_workers=2))
        params._save_as_xml(d / "params.xml")
        if mode is not None:
            make_before(d, kind, variant, d / "res", ref, "one missing" if kind not in ("mean", "surf") else "all")
        cmd = [sys.executable, "-m", "fluidimage.run_from_xml", str(d / "params.xml")]
        if mode:
            cmd += ["--mode", mode]
        p = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, "OMP_NUM_THREADS": "1"}, cwd=d)
        what = f"command for {kind} {variant} mode {mode}"
        check(p.returncode == 0, f"{what}: exit {p.returncode}\n{p.stderr[-1500:]}", "command")
        dirs = sorted(q for q in d.glob("res*") if q.is_dir())
        res = d / "res"
        if mode == "new_dir":
            check(len(dirs) == 2, f"{what}: {dirs}", "command")
            res = [q for q in dirs if q != res][0]
        got = data.results_dir(res)
        check(got == ref, lambda: f"{what}: {diff(got, ref)}", "command")
        rec.count("evaluations")
        rec.nontrivial(what)
        rec.sample(what)


# ---------------------------------------------------------------- UVmat


def uvmat_xml(d, mode, ir, table=None, civ1="j= a-b", sections=("Civ2", "Patch2"), box="13\t13", max_vel=None, corr=0.2, action="civ_series", patch2=(2, 1.5, 500)):
    table = table or [str(d), "/im", "/im", "00", ".png"]

    def tags(values):
        return "".join(f"<{k}>\n {v}\n </{k}>\n" for k, v in values.items())

    irs = tags({**ir, "TimeUnit": "s", "incr_slice": 1})
    parts = ""
    if "Patch2" in sections:
        parts += f"<Patch2>{tags(dict(FieldSmooth=patch2[0], MaxDiff=patch2[1], SubDomainSize=patch2[2]))}</Patch2>"
    if "Civ2" in sections:
        parts += f"<Civ2>{tags(dict(SearchBoxSize='27' + chr(9) + '27'))}</Civ2>"
    fix1 = dict(MinCorr=corr)
    if max_vel is not None:
        fix1["MaxVel"] = max_vel
    parts += f"<Fix1>{tags(fix1)}</Fix1><Civ1>{tags(dict(SearchBoxSize=box.replace(chr(92) + 't', chr(9))))}</Civ1>"
    pair = tags(dict(ListPairCiv1=civ1, ListPairCiv2=civ1, ListPairMode=mode))
    return f"""<?xml version="1.0" ?>
<Series>
<InputTable>
 {" &amp; ".join(table)}
</InputTable>
<OutputDirExt>
 .civ
</OutputDirExt>
<Action>{tags(dict(ActionName=action, RUN=1))}</Action>
<IndexRange>{irs}</IndexRange>
<ActionInput>{parts}<PairIndices>{pair}</PairIndices>{tags(dict(Program="civ_series"))}</ActionInput>
</Series>
"""


def uvmat_pairs(mode, ir, existing):
    """expected couples of images (i, j)"""
    incr = ir.get("incr_i", 1)
    if mode == "series(Di)":
        rng = range(ir["first_i"], ir.get("last_i", existing[0][-1]) + 1, incr)
        pairs = [((i,), (i + 1,)) for i in rng if i + 1 in existing[0]]
    elif mode == "pair j1-j2":
        rng = range(ir["first_i"], ir.get("last_i", existing[0][-1]) + 1, incr)
        pairs = [((i, 1), (i, 2)) for i in rng]
    else:
        i = ir["first_i"]
        rng = range(ir["first_j"], ir.get("last_j", existing[1][-1]) + 1, ir.get("incr_j", 1))
        pairs = [((i, j), (i, j + 1)) for j in rng if j + 1 in existing[1]]
    return pairs


def case_uvmat_pairs(rec, case):
    """which images are used (the computation is replaced by the recording of the couples)"""
    _, mode, kind = case
    fmt = {"i": "im{0:02d}.png", "ab": "im{0:03d}{2}.png", "ij": "im{0:d}_{1:d}.png"}[kind]
    ex_i = range(1, 6)
    ex_j = {"i": [0], "ab": [1, 2], "ij": range(1, 6)}[kind]
    with tmpdir() as d:
        names = {}
        for i in ex_i:
            for j in ex_j:
                names[(i,) if kind == "i" else (i, j)] = fmt.format(i, j, " abcdef"[j])
        data.make_images(d / "im", list(names.values()), shape=(32, 32))
        first = next(iter(names))
        index = names[first][2:-4]
        ranges = []
        for f, last, incr in itertools.product(ex_i, [None, *ex_i], (None, 1, 2, 3)):
            if last is None:
                # UVmat always gives the last index
                continue
            if last < f:
                continue
            ranges.append((f, last, incr))
        for f, last, incr in ranges:
            if mode == "series(Dj)":
                irs = [dict(first_i=i, last_i=i, first_j=f, last_j=last) for i in (1, 3)]
                for ir in irs:
                    if incr is not None:
                        ir["incr_j"] = incr
            else:
                ir = dict(first_i=f, last_i=last)
                if incr is not None:
                    ir["incr_i"] = incr
                if kind != "i":
                    ir.update(first_j=1, last_j=2)
                irs = [ir]
            for ir in irs:
                expected = uvmat_pairs(mode, ir, (ex_i, ex_j))
                if not expected:
                    continue
                hi = ir["last_j" if mode == "series(Dj)" else "last_i"]
                if mode != "pair j1-j2" and hi + 1 not in (ex_j if mode == "series(Dj)" else ex_i):
                    # the last couple would be made with an image which does not exist
                    continue
                (d / "u.xml").write_text(uvmat_xml(d, mode, ir, table=[str(d), "/im", "/im", index, ".png"]))
                what = f"UVmat {mode} {ir} images {kind}"
                with recorded() as couples:
                    action = run_main(d / "u.xml")
                got = [tuple(Path(p).name for p in c) for c in couples]
                want = [tuple(names[i] for i in pair) for pair in expected]
                check(got == want, lambda: f"{what}: couples {got} instead of {want}", "uvmat-pairs")
                out = Path(action.params.saving.path)
                check(str(out).endswith("/im.civ"), f"{what}: output {out}", "uvmat-out")
                rec.count("evaluations")
                if len(want) > 1:
                    rec.nontrivial(what)
        rec.sample(what)


def recorded():
    """the computation of TopologyPIV is replaced by the list of the couples it would compute"""
    from contextlib import contextmanager

    from fluidimage.topologies.piv import TopologyPIV

    @contextmanager
    def ctx():
        couples = []

        def compute(self, *args, **kwargs):
            for serie in self.series:
                couples.append(tuple(serie.get_name_arrays()))

        real = TopologyPIV.__dict__.get("compute")
        TopologyPIV.compute = compute
        try:
            yield couples
        finally:
            if real is None:
                del TopologyPIV.compute
            else:
                TopologyPIV.compute = real

    return ctx()


def case_uvmat_params(rec, case):
    """parameters of the PIV given by the instructions"""
    with tmpdir() as d:
        data.make_images(d / "im", data.names_1d(3), shape=(64, 64))
        for sections in ((), ("Civ2",), ("Civ2", "Patch2"), ("Patch2",)):
            for box, vel, corr, patch2 in itertools.product(((12, 12), (13, 13), (55, 55), (32, 32)), (None, 3, 2.5), (0.2, 0.4), ((2, 1.5, 500), (10, 0.5, 200))):
                (d / "u.xml").write_text(
                    uvmat_xml(d, "series(Di)", dict(first_i=0, last_i=1), table=[str(d), "/im", "/im", "00", ".png"], sections=sections,
                              box=f"{box[1]}\t{box[0]}", max_vel=vel, corr=corr, patch2=patch2)
                )
                what = f"UVmat sections {sections} box {box} max_vel {vel} min_corr {corr} patch2 {patch2}"
                with recorded():
                    action = run_main(d / "u.xml")
                p = action.params
                n = box[0] - box[0] % 2
                check(p.piv0.shape_crop_im0 == n, f"{what}: shape_crop_im0 = {p.piv0.shape_crop_im0}", "uvmat-params")
                check(p.fix.correl_min == corr, f"{what}: correl_min = {p.fix.correl_min}", "uvmat-params")
                if vel is not None:
                    check(p.fix.displacement_max == vel, f"{what}: displacement_max = {p.fix.displacement_max}", "uvmat-params")
                check(p.multipass.number == (2 if "Civ2" in sections else 1), f"{what}: {p.multipass.number} passes", "uvmat-params")
                if "Patch2" in sections:
                    check(
                        (p.multipass.smoothing_coef, p.multipass.threshold_tps, p.multipass.subdom_size) == patch2,
                        f"{what}: {p.multipass.smoothing_coef, p.multipass.threshold_tps, p.multipass.subdom_size}", "uvmat-params",
                    )
                    check(p.multipass.use_tps in (True, "last"), f"{what}: use_tps {p.multipass.use_tps}", "uvmat-params")
                else:
                    check(not p.multipass.use_tps, f"{what}: use_tps {p.multipass.use_tps}", "uvmat-params")
                check(p.saving.how == "recompute", f"{what}: how = {p.saving.how}", "uvmat-params")
                rec.count("evaluations")
                rec.nontrivial(what)
        for mode in ("complete", "new_dir", "recompute"):
            with recorded():
                action = run_main(d / "u.xml", "-m", mode)
            check(action.params.saving.how == mode, f"UVmat with mode {mode}: {action.params.saving.how}", "uvmat-mode")
            rec.count("evaluations")
        rec.sample(what)


def case_uvmat_run(rec, case):
    """complete computation from UVmat instructions"""
    with tmpdir() as d:
        data.make_images(d / "im", data.names_1d(4), shape=(64, 64))
        (d / "u.xml").write_text(uvmat_xml(d, "series(Di)", dict(first_i=0, last_i=2, incr_i=2), table=[str(d), "/im", "/im", "00", ".png"], sections=()))
        p = data.make_params("piv", d / "im", "recompute", d / "ref", crop=12, ind_start=0, ind_stop=3, ind_step=2, str_subset="i:i+2")
        p.fix.correl_min = 0.2
        p.multipass.use_tps = False
        with quiet():
            default = data.topo_class("piv").create_default_params()
            p.piv0.grid.overlap = default.piv0.grid.overlap
            topo = data.topo_class("piv")(p)
        exc = data.compute(topo, "exec_sequential", 1)
        check(exc is None, f"raised {exc!r}", "python")
        run_main(d / "u.xml")
        ref, got = data.results_dir(d / "ref"), data.results_dir(d / "im.civ")
        check(got == ref, lambda: f"UVmat: {diff(got, ref)}", "uvmat-run")
        rec.count("evaluations")
        rec.nontrivial("uvmat run")
        rec.sample(sorted(got))


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


def run(ctx):
    q = ctx.quick
    cases = []
    for kind, variants in VARIANTS.items():
        for variant in variants:
            if q and kind == "surf":
                cases.append(("xml", kind, variant, "user", "exec_sequential", q))
                continue
            origins = ["user", "previous job"] if kind not in ("mean", "surf") else ["user"]
            if kind in ("piv", "preproc"):
                origins.append("launcher")
            for origin in origins:
                if q and origin != "user" and variant != "default" and kind != "im2im":
                    continue
                for ex in ("exec_sequential", "exec_async", "multi_exec_async", "exec_async_multi"):
                    if ex != "exec_sequential" and (origin != "user" or kind in ("mean", "surf") or (q and variant != "default")):
                        continue
                    cases.append(("xml", kind, variant, origin, ex, q))
    for kind in VARIANTS:
        for mode in (None,) if q else (None, "complete", "recompute", "new_dir"):
            if kind == "mean" or (q and kind in ("preproc", "optical_flow", "surf")):
                continue
            cases.append(("command", kind, "default", mode))
    cases.append(("errors",))
    for kind, mode in (("i", "series(Di)"), ("ab", "pair j1-j2"), ("ij", "series(Dj)")):
        cases.append(("uvmat_pairs", mode, kind))
    cases += [("uvmat_params",), ("uvmat_run",)]
    ctx.pmap(case, cases, timeout=300, chunk=1)
