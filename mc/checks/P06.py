"""P06: multi-process executions give the results of the sequential one, failures included"""
import os
from itertools import combinations, product

from mc import data
from mc.common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "fault_enumeration"
RULE = (
    "All (topology, number of items, number of processes, executor) up to the bounds, and for the "
    "image to image topology every single fault (exception, exit, SIGKILL) at every item and "
    "pairs of faults, run with real processes; oracle: the sequential execution and the planned "
    "faults. A case is non trivial when at least two processes work."
)
ASSUMPTIONS = [
    "the operating system schedules the processes (their interleavings are not enumerated: they share nothing but the directory)",
]


def job_dirs(path):
    return sorted(p for p in path.iterdir() if p.name.startswith("job_"))


def check_job(d, what):
    jobs = job_dirs(d)
    check(len(jobs) == 1, f"{what}: {len(jobs)} job directories", "jobs")
    check(not (jobs[0] / "is_running.lock").exists(), f"{what}: lock file left", "lock")
    check((jobs[0] / "time_end.txt").exists(), f"{what}: no time_end.txt", "time-end")
    return jobs[0]


def case_same(rec, case):
    _, kind, names, kw, ex, nb = case
    T = data.topo_class(kind)
    what = f"{kind} {len(names)} images {kw} {ex} nb={nb}"
    with tmpdir() as d, quiet():
        data.make_images(d / "im", names, shape=(32, 32))
        ref = T(data.make_params(kind, d / "im", "recompute", d / "ref", **kw))
        exc = data.compute(ref, "exec_sequential")
        check(exc is None, f"{what}: sequential execution raised {exc!r}", "sequential")
        topo = T(data.make_params(kind, d / "im", "recompute", d / "res", **kw))
        exc = data.compute(topo, ex, nb)
        check(exc is None, f"{what}: raised {exc!r}", "raised")
        check(topo._mc_std_restored, f"{what}: stdout/stderr not restored", "std")
        if kind == "mean":
            a = (d / "ref.png").read_bytes()
            b = (d / "res.png").read_bytes()
            check(a == b, f"{what}: other mean image than the sequential executor", "mean")
        else:
            r0, r1 = data.results_dir(d / "ref"), data.results_dir(d / "res")
            check(sorted(r0) == sorted(r1), f"{what}: result files {sorted(r1)} instead of {sorted(r0)}", "files")
            check(r0 == r1, f"{what}: different content of {[k for k in r0 if r0[k] != r1[k]]}", "content")
            got = sorted(os.path.basename(str(r)) for r in topo.results)
            exp = sorted(os.path.basename(str(r)) for r in ref.results)
            check(got == exp, f"{what}: topology.results = {got} instead of {exp}", "results")
        check_job(d / "res", what)
        rec.count("evaluations")
        if nb > 1:
            rec.nontrivial(case)
        rec.sample(dict(what=what, results=sorted(r1)[:3] if kind != "mean" else "mean image"))


def case_faults(rec, case):
    _, n, nb, ex, faults = case
    T = data.topo_class("im2im")
    names = data.names_1d(n)
    what = f"im2im {n} images {ex} nb={nb} faults={faults}"
    with tmpdir() as d, quiet():
        data.make_images(d / "im", names)
        (d / "faults").write_text("".join(f"{names[i]} {a}\n" for i, a in faults))
        os.environ["MC_FAULTS"] = str(d / "faults")
        topo = T(data.make_params("im2im", d / "im", "recompute", d / "res", im2im="mc.data.im2im_faulty"))
        exc = data.compute(topo, ex, nb)
        del os.environ["MC_FAULTS"]
        # which process computes what: contiguous parts
        k, m = divmod(n, min(nb, n))
        part = {}
        for ip in range(min(nb, n)):
            for i in range(ip * k + min(ip, m), (ip + 1) * k + min(ip + 1, m)):
                part[i] = ip
        killed = {part[i] for i, a in faults if a != "raise"}
        check((exc is not None) == bool(killed),
              f"{what}: compute() {'did not raise' if exc is None else f'raised {exc!r}'}, processes killed: {killed}", "report")
        if killed:
            check(isinstance(exc, RuntimeError), f"{what}: raised {exc!r} instead of RuntimeError", "report-type")
        failed = {i for i, _ in faults}
        got = data.results_dir(d / "res")
        must = {names[i] for i in range(n) if part[i] not in killed and i not in failed}
        cannot = {names[i] for i in failed}
        check(must <= set(got), f"{what}: results {sorted(must - set(got))} are missing", "others")
        check(not cannot & set(got), f"{what}: results for failed items {sorted(cannot & set(got))}", "failed-saved")
        from fluidimage.util import imread

        for name in got:
            i = names.index(name)
            check((imread(d / "res" / name) == 255 - data.img(i)).all(), f"{what}: wrong content for {name}", "content")
        listed = sorted(map(str, topo.results))
        check(set(listed) >= must and len(set(listed)) == len(listed) and set(listed) <= set(names) - cannot,
              f"{what}: topology.results {listed}, files {sorted(got)}", "results")
        check(topo._mc_std_restored, f"{what}: stdout/stderr not restored", "std")
        check_job(d / "res", what)
        n_logs = len(list((d / "res").glob("log_*/exception_*")))
        n_raise = sum(a == "raise" and part[i] not in killed for i, a in faults)
        check(n_logs >= n_raise, f"{what}: {n_logs} exceptions logged", "log")
        rec.count("evaluations")
        if nb > 1:
            rec.nontrivial(case)


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


def cases(quick):
    out = []
    A, S = "multi_exec_async", "multi_exec_sync"
    slow = []
    for ex in (A, S):
        for n in (1, 2, 3, 5) if quick else range(1, 9):
            for nb in (1, 2, 3) if quick else (1, 2, 3, 4, 6):
                out.append(("same", "im2im", data.names_1d(n, start=n % 2), {}, ex, nb))
                out.append(("same", "mean", data.names_1d(n), {}, ex, nb))
        for n in (2, 4) if quick else (2, 3, 4, 5, 6):
            for nb in (1, 2, 3):
                out.append(("same", "piv", data.names_1d(n), {}, ex, nb))
                out.append(("same", "preproc", data.names_1d(n), {}, ex, nb))
                out.append(("same", "bos", data.names_1d(n), {}, ex, nb))
        for nb in (2, 3):
            out.append(("same", "piv", data.names_2d(4), dict(str_subset="i, 0:2"), ex, nb))
            out.append(("same", "piv", data.names_1d(7), dict(ind_step=2, ind_stop=6), ex, nb))
            out.append(("same", "im2im", data.names_2d(3), {}, ex, nb))
            out.append(("same", "im2im", data.names_1d(6), dict(str_subset="1:6:2"), ex, nb))
            out.append(("same", "preproc", data.names_1d(6), dict(str_subset="i-1:i+2", ind_start=1), ex, nb))
            out.append(("same", "mean", data.names_1d(11), dict(str_subset="1:10"), ex, nb))
            out.append(("same", "bos", data.names_1d(5), dict(reference=2), ex, nb))
    for ex in ("multi_exec_subproc", "multi_exec_subproc_sync"):
        slow.append(("same", "im2im", data.names_1d(5), {}, ex, 2))
        slow.append(("same", "piv", data.names_1d(5), {}, ex, 2))
        slow.append(("same", "bos", data.names_1d(5), dict(reference=1), ex, 2))
        slow.append(("same", "preproc", data.names_1d(4), {}, ex, 2))
        slow.append(("same", "mean", data.names_2d(3), {}, ex, 2))
    if not quick:
        for ex in ("multi_exec_subproc", "multi_exec_subproc_sync"):
            for n, nb in product((1, 2, 4, 7), (1, 3, 4)):
                slow.append(("same", "im2im", data.names_1d(n), {}, ex, nb))
                slow.append(("same", "piv", data.names_1d(n + 1), {}, ex, nb))
    for ex in (A, S):
        acts = ("raise", "exit", "kill")
        for n, nb in ((3, 2), (4, 3)) if quick else ((3, 2), (4, 3), (5, 2), (6, 3), (4, 4)):
            for i, a in product(range(n), acts):
                out.append(("faults", n, nb, ex, ((i, a),)))
        for n, nb in ((4, 2),) if quick else ((4, 2), (5, 3)):
            for i, j in combinations(range(n), 2):
                for a, b in product(("raise", "kill"), repeat=2):
                    out.append(("faults", n, nb, ex, ((i, a), (j, b))))
    for ex in ("multi_exec_subproc", "multi_exec_subproc_sync"):
        for a in ("raise", "kill"):
            slow.append(("faults", 4, 2, ex, ((1, a),)))
    return slow + out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=120, chunk=3)
