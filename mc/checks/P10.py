"""P10: each computation has its own complete record and leaves the session as it was"""
import os
import sys
from itertools import product
from pathlib import Path

from mc import data
from mc.common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "All histories of 1 to 3 computations in one process and one directory over an alphabet of executors, modes of saving, sets of "
    "failing items, stop at the first error; the record on disk (job directory, lock, params, info, "
    "results, logs) and the state of the session are checked after each one, the lock also during each "
    "one. Non trivial: histories with at least two computations or a failure."
)
ASSUMPTIONS = ["2 or 3 images, image to image topology; most computations of a history start in the same second"]

SEQ_LIKE = ("exec_sequential",)
STOP_OK = ("exec_sequential", "exec_async", "exec_async_sequential")


def open_fds(below):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if target.startswith(str(below)):
            out.append(target)
    return out


def jobs_of(res):
    return sorted(p.name for p in res.iterdir() if p.name.startswith("job_")) if res.exists() else []


def case(rec, case):
    if case[0] == "mean":
        return case_mean(rec, *case[1:])
    if case[0] == "kinds":
        return case_kinds(rec, *case[1:])
    kind, n, prefix, ops = case
    for hist in ops:
        history(rec, n, tuple(prefix) + tuple(hist))
        rec.count("evaluations")


def history(rec, n, ops):
    import logging

    from fluidimage import ParamContainer

    T = data.topo_class("im2im")
    with tmpdir() as d, quiet():
        names = data.names_1d(n)
        data.make_images(d / "im", names)
        res = d / "res"
        (d / "obs").mkdir()
        os.environ.update(MC_OBS=str(d / "obs"), MC_RES=str(res), MC_FAULTS=str(d / "faults"))
        have = set()
        logs_before = set()
        for i, (ex, how, failing, stop) in enumerate(ops):
            what = f"history {ops}, computation {i}"
            (d / "faults").write_text("".join(f"{names[k]} raise\n" for k in failing))
            if how == "complete1":  # a result is missing
                if have:
                    (res / sorted(have)[-1]).unlink()
                    have.discard(sorted(have)[-1])
                how = "complete"
            params = data.make_params("im2im", d / "im", how, res, im2im="mc.data.im2im_observe")
            t = T(params)
            before = jobs_of(res)
            todo = [x for x in names if how == "recompute" or x not in have]
            fails = [names[k] for k in failing if names[k] in todo]
            done = [x for x in todo if x not in fails]
            kw = dict(stop_if_error=True) if stop else {}
            handlers = list(logging.getLogger("fluidimage").handlers)
            exc = data.compute(t, ex, 2, **kw)
            # the session
            check(t._mc_std_restored, f"{what}: sys.stdout / sys.stderr not restored", "std")
            if ex != "exec_async_servers_threading":  # (servers in threads of this process)
                check(not open_fds(res), f"{what}: files left open: {open_fds(res)}", "open-files")
            for h in logging.getLogger("fluidimage").handlers:
                check(h in handlers, f"{what}: handler {h} left in the logger", "handlers")
            if stop and fails:
                check(exc is not None, f"{what}: no exception though stop_if_error", "stop")
            else:
                check(exc is None, f"{what}: raised {exc!r}", "raised")
            # the record
            jobs = jobs_of(res)
            new = [j for j in jobs if j not in before]
            for j in before:
                check(j in jobs, f"{what}: job directory {j} of a previous computation removed", "job-removed")
            check(len(new) == (1 if todo else 0), f"{what}: {len(new)} new job directories for {len(todo)} items to be computed", "job-dir")
            new_logs = {p for p in res.iterdir() if p.name.startswith("log_")} - logs_before
            if todo:
                check(len(new_logs) >= 1, f"{what}: no log of its own", "log")
                logs_before |= new_logs
            for p in res.glob("job_*/is_running.lock"):
                check(False, f"{what}: lock file left: {p.parent.name}", "lock-left")
            if todo:
                job = res / new[0]
                for x in done if not (stop and fails) else ():
                    locks = (d / "obs" / x).read_text().split()
                    check(locks == [new[0]], f"{what}: during the processing of {x}: locks {locks}, job {new[0]}", "lock-during")
                check((job / "time_end.txt").exists(), f"{what}: no time_end.txt", "time-end")
                info = ParamContainer(path_file=job / "info.xml")
                check(info.num_expected_results == len(todo), f"{what}: num_expected_results = {info.num_expected_results} instead of {len(todo)}", "info")
                check("Image2Image" in info.topology, f"{what}: {info.topology}", "info")
                p2 = ParamContainer(path_file=job / "params.xml")
                check(p2.im2im == "mc.data.im2im_observe" and str(p2.images.path) == str(d / "im"), f"{what}: params of another computation", "params")
                check(p2.saving.how == how and str(p2.saving.path) == str(res), f"{what}: params.saving: {p2.saving}", "params")
                lists = sorted(job.glob("results*.txt"))
                if lists and not (stop and fails):
                    got = sorted(x for p in lists for x in p.read_text().split())
                    check(got == done, f"{what}: results of the job {got} instead of {done}", "job-results")
                    nb = sum(int(p.read_text()) for p in job.glob("len_results*.txt"))
                    check(nb == len(done), f"{what}: number of results {nb} instead of {len(done)}", "job-results")
                if (ex == "exec_sequential" or ex.startswith("multi_")) and done and not (stop and fails):
                    check(lists, f"{what}: no list of results in the job directory", "job-results")
                excs = [p for p in res.glob("log_*/exception_*") if p.parent in new_logs]
                if not ex.startswith("exec_async_servers") and not (stop and fails):
                    check(len(excs) == len(fails), f"{what}: {len(excs)} exception files for {len(fails)} failures", "exceptions")
            if not (stop and fails):
                check(sorted(map(str, t.results)) == done, f"{what}: topology.results = {t.results} instead of {done}", "results")
            have |= set(done) if not (stop and fails) else {x for x in names if (res / x).exists()}
            for f in (d / "obs").iterdir():
                f.unlink()
        if len(ops) > 1 or ops[0][2]:
            rec.nontrivial((n, ops))
        rec.sample(dict(history=ops, jobs=len(jobs_of(res))))


def case_mean(rec, n, ops):
    """final sequential work of the mean: (executor, images that cannot be read, exception during the final work)"""
    import logging

    T = data.topo_class("mean")
    with tmpdir() as d, quiet():
        names = data.names_1d(n)
        data.make_images(d / "im", names)
        res = d / "res"
        for i, (ex, fails) in enumerate(ops):
            what = f"mean of {n} images, history {ops}, computation {i}"
            t = T(data.make_params("mean", d / "im", "recompute", res))
            final = t.final_seq_work
            during = []

            def final_seq_work():
                during.append(sorted((p.parent.name, (p.parent / "time_end.txt").exists()) for p in res.glob("job_*/is_running.lock")))
                if fails:
                    raise ZeroDivisionError("final work")
                final()
                during.append(sorted((p.parent.name, (p.parent / "time_end.txt").exists()) for p in res.glob("job_*/is_running.lock")))

            t.final_seq_work = final_seq_work
            before = jobs_of(res)
            handlers = list(logging.getLogger("fluidimage").handlers)
            exc = data.compute(t, ex, 2)
            check(t._mc_std_restored, f"{what}: sys.stdout / sys.stderr not restored", "std")
            check(not open_fds(res), f"{what}: files left open: {open_fds(res)}", "open-files")
            for h in logging.getLogger("fluidimage").handlers:
                check(h in handlers, f"{what}: handler {h} left in the logger", "handlers")
            new = [j for j in jobs_of(res) if j not in before]
            check(len(new) == 1, f"{what}: {len(new)} new job directories", "job-dir")
            job = res / new[0]
            check(during and all(x == [(new[0], False)] for x in during), f"{what}: locks (and time_end.txt) during the final work {during}, job {new[0]}", "lock-final")
            check(not list(res.glob("job_*/is_running.lock")), f"{what}: lock file left", "lock-left")
            check((job / "time_end.txt").exists(), f"{what}: no time_end.txt", "time-end")
            if fails:
                check(isinstance(exc, ZeroDivisionError), f"{what}: raised {exc!r} instead of the exception of the final work", "final-exception")
            else:
                check(exc is None, f"{what}: raised {exc!r}", "raised")
                check(len(during) == 2, f"{what}: final work done {len(during) / 2} times", "final-once")
                check(not list(job.glob("tmp_sum*")), f"{what}: temporary files left", "final-tmp")
        rec.count("evaluations")
        rec.nontrivial((n, ops))


def case_kinds(rec, kind, n, ex, how, exist, kw, shape):
    """record of the computations of the other topologies: exact number of expected results, list of results"""
    from fluidimage import ParamContainer

    T = data.topo_class(kind)
    with tmpdir() as d, quiet():
        if kind == "surf":
            data.make_surf_images(d, n)
            kw = dict(path_ref=d / "ref")
        else:
            data.make_images(d / "im", data.names_1d(n), shape=shape)
        res = d / "res"
        t = T(data.make_params(kind, d / "im", "recompute", res, **kw))
        exc = data.compute(t, "exec_sequential")
        check(exc is None, f"{kind}: {exc!r}", "raised")
        files = sorted(data.results_dir(res))
        exist = range(len(files)) if exist == "all" else exist
        for i, f in enumerate(files):
            if i not in exist:
                (res / f).unlink()
        before = jobs_of(res)
        what = f"{kind} {n} images {kw if kind != 'surf' else ''} {ex} {how} existing={[files[i] for i in exist]}"
        t = T(data.make_params(kind, d / "im", how, res, **kw))
        exc = data.compute(t, ex, 2)
        check(exc is None, f"{what}: raised {exc!r}", "raised")
        check(sorted(data.results_dir(res)) == files, f"{what}: results {sorted(data.results_dir(res))} instead of {files}", "files")
        todo = files if how == "recompute" else [f for i, f in enumerate(files) if i not in exist]
        new = [j for j in jobs_of(res) if j not in before]
        rec.count("evaluations")
        rec.nontrivial(what)
        check(len(new) == (1 if todo else 0), f"{what}: {len(new)} new job directories for {len(todo)} items to be computed", "job-dir")
        if not todo:
            return
        job = res / new[0]
        check(not list(res.glob("job_*/is_running.lock")), f"{what}: lock file left", "lock-left")
        check((job / "time_end.txt").exists(), f"{what}: no time_end.txt", "time-end")
        lists = sorted(job.glob("results*.txt"))
        if lists:
            got = sorted(os.path.basename(x) for p in lists for x in p.read_text().split())
            check(got == todo, f"{what}: results of the job {got} instead of {todo}", "job-results")
        info = ParamContainer(path_file=job / "info.xml")
        check(info.num_expected_results == len(todo), f"{what}: num_expected_results = {info.num_expected_results} instead of {len(todo)}", "info" if kind != "surf" else "surf-info")
        check(type(t).__name__ in info.topology, f"{what}: {info.topology}", "info")


ALL = ["exec_sequential", "exec_async", "exec_async_sequential", "multi_exec_async", "multi_exec_sync"]
SLOW = ["exec_async_multi", "exec_async_servers_threading", "exec_async_servers", "multi_exec_subproc", "multi_exec_subproc_sync"]


def alphabet(executors, n):
    out = []
    for ex in executors:
        out += [(ex, "recompute", (), False), (ex, "complete", (), False), (ex, "complete1", (), False),
                (ex, "recompute", (n - 1,), False), (ex, "complete", (0,), False)]
        if ex in STOP_OK:
            out.append((ex, "recompute", (0,), True))
    return out


def cases(quick):
    out = []
    n = 2
    # all the executors, alone and twice
    for ex in ALL + SLOW:
        A = alphabet([ex], n)
        if ex in SLOW and quick:
            A = A[:2] + A[3:4]
        for a in A:
            out.append(("hist", n, (a,), [()]))
            if a[1] == "recompute" and (ex not in SLOW or not quick):
                out.append(("hist", n, (a,), [(b,) for b in A]))
        if ex in SLOW and quick:
            out.append(("hist", n, (A[0],), [(A[1],)]))
    # the other topologies
    for ex in ALL:
        for kind, n, kw, shape in (("piv", 4, {}, (32, 32)), ("piv", 6, dict(ind_start=1, ind_step=2), (32, 32)), ("bos", 3, {}, (32, 32)), ("preproc", 3, {}, (8, 8)), ("surf", 3, {}, None)):
            if kind == "surf" and ex.startswith("multi"):
                continue
            out.append(("kinds", kind, n, ex, "recompute", (), kw, shape))
            if kind != "surf":
                for exist in ((), (0,), (1,), "all"):
                    out.append(("kinds", kind, n, ex, "complete", exist, kw, shape))
    # final work of the mean
    MEAN = ["exec_sequential", "exec_async", "exec_async_sequential", "multi_exec_async", "multi_exec_sync", "multi_exec_subproc"]
    for ex in MEAN:
        for fails in (False, True):
            for ex2 in MEAN[:4] if quick else MEAN:
                if quick and "subproc" in ex and ex2 != MEAN[0]:
                    continue
                for fails2 in (False, True):
                    out.append(("mean", 3, ((ex, fails), (ex2, fails2))))
    # mixed executors
    mixed = alphabet(["exec_sequential", "exec_async_sequential"], n) + [("multi_exec_async", "complete", (), False), ("multi_exec_async", "recompute", (), False)]
    for a in mixed:
        for b in mixed:
            if quick:
                out.append(("hist", n, (a, b), [()]))
            else:
                out.append(("hist", n, (a, b), [(c,) for c in mixed]))
    # triples with one executor
    A = alphabet(["exec_sequential"], n)
    for a in A:
        for b in A:
            out.append(("hist", n, (a, b), [(c,) for c in A]))
    # more computations in the same second
    for k in (4, 6):
        out.append(("hist", n, tuple([("exec_sequential", "recompute", (), False)] * k), [()]))
    if not quick:
        for ex in ALL:
            A = alphabet([ex], 3)
            for a in A:
                for b in A:
                    out.append(("hist", 3, (a, b), [(c,) for c in A]))
    return out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=400, chunk=4 if ctx.quick else 1)
