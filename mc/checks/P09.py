"""P09: in which directory the results go"""
import io
import os
import sys
from itertools import combinations, product
from pathlib import Path

from mc import data
from mc.common import check, listing, quiet, tmpdir
from mc.linesched import LineRun, points_of_interest, profile

data.fast_polls()

LEVEL = "exploration"
RULE = (
    "All combinations of saving mode, way to give the directory, set of already existing directories and "
    "sequence of answers of the user (valid, invalid, lower and upper case), on the real topologies, with every executor for the "
    "end-to-end cases; all interleavings with up to 2 preemptions, at the granularity of the lines, of 2 or 3 "
    "computations asking for a new directory. Non trivial: the directory already exists or concurrency."
)
ASSUMPTIONS = ["answers up to 3 lines", "threads stand for simultaneous processes in the concurrent cases"]


def make_topology(kind, d, how, saving, postfix, answers=None, src="im"):
    """returns topology or "exit" or exception"""
    T = data.topo_class(kind)
    params = data.make_params(kind, d / src, how, None, postfix)
    params.saving.path = saving
    stdin = sys.stdin
    sys.stdin = io.StringIO("".join(a + "\n" for a in answers or ()))
    try:
        with quiet():
            return T(params)
    except SystemExit:
        return "exit"
    finally:
        sys.stdin = stdin


def expected_mode(how, exists, answers):
    """-> "base", "new", "exit" """
    if how == "ask" and not exists:
        return "base", "recompute"
    if how == "ask":
        for a in answers:
            if a.lower() in ("n", "c", "r", "s"):
                return {"n": ("new", "new_dir"), "c": ("base", "complete"), "r": ("base", "recompute"), "s": ("exit", None)}[a.lower()]
    if how == "new_dir":
        return ("new" if exists else "base"), "new_dir"
    return "base", how


def fill_old(p):
    p.mkdir()
    (p / "im00.png").write_bytes(b"old")
    (p / "precious.txt").write_text(p.name)


def one(rec, kind, how, form, postfix, existing, answers, executor, src="im", out="out"):
    with tmpdir() as d:
        cwd = os.getcwd()
        data.make_images(d / src, data.names_1d(2))
        base = d / (src + "." + (postfix or kind)) if form == "none" else d / out
        saving = {"none": None, "str": str(base), "path": base, "rel": base.name}[form]
        for suffix in existing:
            fill_old(Path(str(base) + suffix))
        before = listing(d)
        dirs = {p.name for p in d.iterdir()}
        what = f"{kind} how={how} path={form} postfix={postfix} existing={existing} answers={answers} {executor} images={src} result={out}"
        os.chdir(d)
        try:
            t = make_topology(kind, d, how, saving, postfix, answers, src)
            mode, how_expected = expected_mode(how, "" in existing, answers)
            if mode == "exit":
                check(t == "exit", f"{what}: the user said stop", "stop")
                check(listing(d) == before and {p.name for p in d.iterdir()} == dirs, f"{what}: stopped by the user but files changed", "stop")
            else:
                check(t != "exit", f"{what}: exit", "exit")
                path = (d / t.path_dir_result).resolve()
                check(path.is_dir(), f"{what}: {path} is not a directory", "mkdir")
                if mode == "base":
                    check(path == base.resolve(), f"{what}: {path.name} instead of {base.name}", "base")
                else:
                    check(path.name not in dirs and path.parent == d.resolve() and path.name.startswith(base.name), f"{what}: new directory: {path}", "new")
                check(t.how_saving == how_expected, f"{what}: how_saving={t.how_saving} instead of {how_expected}", "how")
                check({p.name for p in d.iterdir()} == dirs | {path.name}, f"{what}: other directories created: {sorted(p.name for p in d.iterdir())}", "other-dirs")
                check(listing(d) == before, f"{what}: files changed by the creation of the topology", "changed")
                if executor:
                    exc = data.compute(t, executor, 2)
                    check(exc is None, f"{what}: raised {exc!r}", "raised")
                    check({p.name for p in d.iterdir()} == dirs | {path.name}, f"{what}: after the computation: {sorted(p.name for p in d.iterdir())}", "other-dirs")
                    after = listing(d)
                    rel = str(path.relative_to(d.resolve()))
                    for f, h in before.items():
                        if f == f"{rel}/im00.png" and how_expected == "recompute":
                            check(after.get(f) != h, f"{what}: {f} not recomputed", "recompute")
                        else:
                            check(after.get(f) == h, f"{what}: {f} modified", "modified")
                    pngs = sorted(p.name for p in path.glob("*.png"))
                    check(pngs == data.names_1d(2), f"{what}: results {pngs} in {rel}", "results")
        finally:
            os.chdir(cwd)
        rec.count("evaluations")
        if "" in existing:
            rec.nontrivial((kind, how, form, postfix, existing, answers, executor, src, out))


def case_policy(rec, case):
    _, kind, how, form, postfix, answers_list, executors, existings = case
    for existing in existings:
        for answers in answers_list:
            for executor in executors:
                one(rec, kind, how, form, postfix, existing, answers, executor)
    rec.sample(dict(kind=kind, how=how, form=form))


NAMES = ["im.1", "im.1.2", "a b", "im0", "im.im2im", ".im", "im.png", "Im-é", "im.", "_"]


def case_names(rec, case):
    """names of directories which look like something else"""
    _, how, postfix, executor = case
    for name in NAMES:
        for form in ("none", "str", "rel"):
            if form != "none" and postfix:
                continue
            for existing in ((), ("",), ("", "0"), ("", "0", "1", "3")):
                one(rec, "im2im", how, form, postfix, existing, None, executor, src=name if form == "none" else "im", out=name + "x" if form != "none" and name == "im.im2im" else name + "r")
    rec.sample(dict(how=how, postfix=postfix))


# ------------------------------------------------------------ concurrency


def case_concurrent(rec, case):
    """n computations asking at the same time for a new directory"""
    _, n, exists, part, nparts, npre = case
    T = data.topo_class("im2im")
    with tmpdir() as d, quiet():
        data.make_images(d / "im", data.names_1d(1))

        def creator(k, base):
            params = data.make_params("im2im", d / "im", "new_dir", base)
            params.saving.path = str(base)
            return lambda: T(params).path_dir_result

        creator(0, d / "warm")()
        if exists:
            (d / "prof").mkdir()
        trace = profile(creator(0, d / "prof"), "topologies/base.py")
        ks = points_of_interest(trace, 2)  # (the first two occurrences of each line)
        N = len(ks)
        rec.count("lines", N if part == 0 else 0)
        schedules = []
        for k1 in ks:
            if npre == 1:
                schedules.append([(0, k1)])
            else:
                for k2 in ks:
                    schedules.append([(0, k1), (1, k2)])
                    if n == 3:
                        schedules[-1].append((2, None))
        for s, sched in enumerate(schedules):
            if s % nparts != part:
                continue
            base = d / f"out{s}_"
            if exists:
                fill_old(base)
            run = LineRun([creator(i, base) for i in range(n)], sched, "topologies/base.py")
            results = run.run()
            what = f"{n} simultaneous computations, how=new_dir, existing directory: {exists}, schedule {sched}"
            for kind, val in results:
                check(kind == "ok", f"{what}: raised {val!r}", "concurrent-raised")
            paths = [str(Path(v).resolve()) for _, v in results]
            check(len(set(paths)) == n, f"{what}: shared directory: {paths}", "concurrent-shared")
            if exists:
                check(str(base.resolve()) not in paths, f"{what}: existing directory used", "concurrent-existing")
            rec.count("evaluations")
            rec.count("schedules")
            rec.nontrivial(("conc", n, exists, tuple(sched)))


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


def subsets(xs):
    return [c for k in range(len(xs) + 1) for c in combinations(xs, k)]


def cases(quick):
    out = []
    answers = [(a,) for a in "ncrsNCRS"] + [("x", a) for a in "ncrs"] + [("", "nc", "C"), ("yes", "R"), ("rr", "N"), ("?", "S")]
    ex_all = subsets(["", "0", "1"]) + [("", "0", "2"), ("", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10")]
    for form in ("none", "str", "path", "rel"):
        for postfix in (None, "other"):
            if postfix and form != "none":
                continue
            for how in ("new_dir", "complete", "recompute"):
                out.append(("policy", "im2im", how, form, postfix, [None], [None, "exec_sequential"], ex_all))
            for a in answers:
                out.append(("policy", "im2im", "ask", form, postfix, [a], [None] if len(a) > 1 else [None, "exec_sequential"],
                            ex_all if not quick else [(), ("",), ("", "0"), ("", "0", "2")]))
    for kind in ("piv", "bos", "preproc", "mean", "optical_flow"):
        for how in ("new_dir", "complete", "recompute"):
            out.append(("policy", kind, how, "str", None, [None], [None], ex_all[:5]))
    for how in ("new_dir", "complete", "recompute"):
        for postfix in (None, "p.1", "0"):
            for ex in (None, "exec_sequential"):
                out.append(("names", how, postfix, ex))
    existing = [(), ("",), ("", "0")]
    for ex in ("exec_async", "exec_async_sequential", "multi_exec_async", "multi_exec_sync", "multi_exec_subproc", "multi_exec_subproc_sync",
               "exec_async_servers", "exec_async_multi"):
        for how, a in (("new_dir", None), ("complete", None), ("recompute", None), ("ask", ("n",)), ("ask", ("r",))):
            out.append(("policy", "im2im", how, "str", None, [a], [ex], existing))
    nparts = 4
    for n, npre in ((2, 1), (2, 2)) if quick else ((2, 1), (2, 2), (3, 2)):
        for exists in (False, True):
            for part in range(nparts):
                out.append(("concurrent", n, exists, part, nparts, npre))
    return out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=600, chunk=1)
