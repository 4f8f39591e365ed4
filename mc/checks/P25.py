"""P25: what is read in the log files is what happened"""
import builtins
import json
import math
import os
import time
from itertools import combinations, permutations
from pathlib import Path

from .. import data
from ..common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "fault_enumeration"
RULE = (
    "Real computations with each executor for each bounded scenario (names of images, failing works); for each log file, all the byte "
    "truncations (state of the file at each moment) and all the placements of the writes of another thread printing between the writes "
    "of the log; all the methods of analysis and forms of the path. Non trivial: several works, truncation inside of the list of works."
)
ASSUMPTIONS = [
    "the thread based servers (used for debug) are excluded, their main log being redirected",
    "times are compared through inequalities implied by the order of the events",
]

SINGLE = ("exec_sequential", "exec_async", "exec_async_sequential", "exec_async_multi")
MULTI = ("multi_exec_async", "multi_exec_sync", "exec_async_servers")
SUBPROC = ("multi_exec_subproc", "multi_exec_subproc_sync")

NAMES = ["im00.png", "im01.png", "im02.png", "im03.png"]
ODD = [f"my image (b) {i:02d}.png" for i in range(4)]


def im2im_record(tup):
    """image -> image function writing what happens in the file $MC_RECORD"""
    path, image = tup
    name = os.path.basename(str(path))
    t0 = time.time()
    plan = json.loads(os.environ["MC_PLAN"])
    action = plan.get(name)
    time.sleep(0.03 if action == "slow" else 0.002)
    line = json.dumps([name, t0, time.time(), action == "raise", os.getpid()])
    fd = os.open(os.environ["MC_RECORD"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (line + "\n").encode())
    os.close(fd)
    if action == "raise":
        raise ValueError(f"planned failure {name}")
    if action == "print":
        print("text written by a work", end="")
    return 255 - image


def load(path):
    from fluidimage.topologies.log import LogTopology

    with quiet():
        return LogTopology(path)


def load_file(path):
    from fluidimage.topologies.log import DataLogFile

    with quiet():
        return DataLogFile(path)


class Recorder:
    """file object recording the writes"""

    def __init__(self, file, writes):
        self.file, self.writes = file, writes

    def write(self, s):
        self.writes.append((time.time(), s))
        return self.file.write(s)

    def __getattr__(self, name):
        return getattr(self.file, name)


def record_writes(writes):
    """context: files opened for the logs of this process are recorded"""
    from contextlib import contextmanager

    from fluidimage.executors import base

    @contextmanager
    def ctx():
        def my_open(path, *args, **kwargs):
            f = builtins.open(path, *args, **kwargs)
            if Path(str(path)).name.startswith("log_") and "w" in str(args[:1]) + str(kwargs.get("mode", "")):
                return Recorder(f, writes)
            return f

        base.open = my_open
        try:
            yield
        finally:
            del base.open

    return ctx()


def one_run(d, executor, names, plan, nb):
    """run a computation, return what really happened"""
    os.environ["MC_PLAN"] = json.dumps(plan)
    os.environ["MC_RECORD"] = str(d / "record")
    (d / "record").write_text("")
    if not (d / "im").exists():
        data.make_images(d / "im", names)
        for name, action in plan.items():
            if action == "corrupted":
                (d / "im" / name).write_bytes(b"no image")
    T = data.topo_class("im2im")
    params = data.make_params("im2im", d / "im", "recompute", d / "res", im2im="mc.checks.P25.im2im_record")
    topo = T(params)
    writes = []
    t0 = time.time()
    with record_writes(writes):
        exc = data.compute(topo, executor, nb)
    t1 = time.time()
    check(exc is None, f"{executor} {names} {plan}: raised {exc!r}", "raised")
    real = [json.loads(line) for line in (d / "record").read_text().splitlines()]
    return topo, real, t0, t1, writes


def expected_works(names, plan):
    """(set of launched, set of ended) of tuples (role, key)"""
    launched, ended = [], []
    for n in names:
        launched.append(("read", n))
        if plan.get(n) == "corrupted":
            continue
        ended.append(("read", n))
        launched.append(("im2im", n))
        if plan.get(n) == "raise":
            continue
        ended.append(("im2im", n))
        launched.append(("save", n))
        ended.append(("save", n))
    return sorted(launched), sorted(ended)


def role(name):
    for r in ("read", "save"):
        if r in name:
            return r
    return "im2im"


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


def verify(what, log, topo, executor, names, plan, real, t0, t1, nb):
    launched, ended = expected_works(names, plan)
    got = sorted((role(w["name"]), w["key"]) for w in log.works)
    check(got == launched, lambda: f"{what}: works launched according to the log {got} instead of {launched}", "launched")
    got = sorted((role(w["name"]), w["key"]) for w in log.works_ended)
    check(got == ended, lambda: f"{what}: works ended according to the log {got} instead of {ended}", "ended")
    names_topo = {w.name_no_space for w in topo.works}
    names_log = {w["name"] for w in log.works}
    check(names_log <= names_topo, f"{what}: names of the works {names_log} not in {names_topo}", "names")
    check(set(log.names_works) == names_log and len(log.names_works) == len(names_log), f"{what}: names_works {log.names_works}", "names")
    check(set(log.durations) == set(log.times) == set(log.keys) == names_log, f"{what}: keys of the dictionaries", "names")
    cls = type(topo)
    check(str(log.topology_name).rsplit(".", 1)[-1] == cls.__name__, f"{what}: topology {log.topology_name}", "topology")
    from fluidimage.executors import import_executor_class

    cls = import_executor_class(executor)
    check(str(log.executor_name).rsplit(".", 1)[-1] == cls.__name__, f"{what}: executor {log.executor_name}", "executor")
    if executor in ("exec_sequential", "exec_async_sequential"):
        nb = log.nb_max_workers  # not used
    check(log.nb_max_workers == nb, f"{what}: nb_max_workers {log.nb_max_workers} instead of {nb}", "nb-workers")
    check(isinstance(log.nb_cpus_allowed, int) and log.nb_cpus_allowed >= 1, f"{what}: nb_cpus_allowed {log.nb_cpus_allowed}", "nb-cpus")

    # one value per launched work
    table = {}
    for name in log.names_works:
        check(len(log.durations[name]) == len(log.times[name]) == len(log.keys[name]), f"{what}: lengths for {name}", "lengths")
        for key, t, dur in zip(log.keys[name], log.times[name], log.durations[name]):
            table[(role(name), key)] = (t, dur)
    check(sorted(table) == launched, f"{what}: {sorted(table)} in keys instead of {launched}", "launched")
    for k, (t, dur) in table.items():
        check(isnan(dur) == (k not in ended), f"{what}: duration of {k}: {dur}", "duration-nan")
        check(isnan(dur) or 0 <= dur <= t1 - t0 + 0.01, f"{what}: duration of {k}: {dur}", "duration")
        check(0 <= t <= t1 - t0 + 0.01, f"{what}: time of {k}: {t}, whole computation {t1 - t0}", "time")
    eps = 0.025  # roundings
    info = load_file(log.path_log_file)
    start = date(info.date_start)
    check(t0 - eps <= start <= t1, f"{what}: date_start {info.date_start}", "date")
    for name, a, b, failed, pid in real:
        t, dur = table[("im2im", name)]
        check(t0 + t <= a + eps, f"{what}: {name} launched at {t} but started at {a - t0}", "time-late")
        tr, dr = table[("read", name)]
        if not failed:
            check(dur >= b - a - 0.0011, f"{what}: {name} duration {dur} but took {b - a}", "duration-short")
            ts, ds = table[("save", name)]
            check(start + ts >= b - eps, f"{what}: saving of {name} at {ts} but computed at {b - start}", "time-early")
            check(t0 + ts + ds <= t1 + eps, f"{what}: saving of {name} at {ts} {ds} but end at {t1 - t0}", "duration")
        check(tr <= t, f"{what}: {name} computed ({t}) before read ({tr})", "order")
    # memory
    for w in log.works:
        check(10 < w["mem_start"] < 5000, f"{what}: memory {w}", "mem")
    check(10 < log.mem_start < 5000 and 10 < log.mem_end < 5000, f"{what}: memory {log.mem_start} {log.mem_end}", "mem")
    check(-0.02 <= log.duration <= t1 - t0 + 0.02, f"{what}: duration {log.duration} instead of {t1 - t0}", "duration-total")
    last = max((b for _, _, b, _, _ in real), default=t0)
    check(log.duration >= last - start - 0.03, f"{what}: duration {log.duration}, last work at {last - start}", "duration-total")
    check(abs(date(info.date_end) - start - log.duration) < 0.011, f"{what}: {info.date_start} {info.date_end} {log.duration}", "dates")


def date(s):
    main, frac = s.rsplit(".", 1)
    return time.mktime(time.strptime(main, "%Y-%m-%d_%H-%M-%S")) + float("0." + frac)


def public(log):
    return dict(
        works=log.works, ended=log.works_ended, durations={k: list(map(repr, v)) for k, v in log.durations.items()}, times=log.times, keys=log.keys,
        names=log.names_works, topology=log.topology_name, executor=log.executor_name, nb=log.nb_max_workers, cpus=log.nb_cpus_allowed,
        mem=(log.mem_start, getattr(log, "mem_end", None)), duration=getattr(log, "duration", None),
    )


def without_mem(works):
    return [{k: v for k, v in w.items() if k != "mem_start"} for w in works]


def is_prefix(a, b):
    return a == b[: len(a)]


def truncations(rec, what, path, step):
    """LogTopology for each truncation of a log file alone"""
    content = path.read_bytes()
    with tmpdir() as d:
        copy = d / "log_0.txt"
        copy.write_bytes(content)
        full = load(copy)
        last = (-1, -1)
        for n in range(0, len(content) + 1, step):
            copy.write_bytes(content[:n])
            try:
                log = load(copy)
            except UnicodeDecodeError:
                check(False, f"{what}: unicode", "unicode")
            except Exception as err:  # noqa
                check(False, f"{what}: {path.name} truncated after {n} bytes ({content[max(0, n - 60):n]!r}): {err!r}", "truncated-error")
            w = f"{what}: {path.name} truncated after {n} bytes ({content[max(0, n - 60):n]!r})"
            check(is_prefix(without_mem(log.works), without_mem(full.works)) and is_prefix(log.works_ended, full.works_ended),
                  lambda: f"{w}: works {log.works} {log.works_ended}", "truncated")
            check(is_prefix(log.works[:-1], full.works), lambda: f"{w}: memory of the works {log.works}", "truncated")
            now = (len(log.works), len(log.works_ended))
            check(now[0] >= last[0] and now[1] >= last[1], lambda: f"{w}: {now} works, {last} before", "truncated")
            # a line is taken into account as soon as it is complete
            if n and content[n - 1 : n] == b"\n":
                lines = content[:n].decode().splitlines()
                exp = sum("Launch work" in line for line in lines), sum(" done in " in line and "work" in line for line in lines)
                check(now == exp or exp[0] != sum("Launch work" in x for x in lines), f"{w}: {now} works instead of {exp}", "truncated-missed")
            last = now
            for name in log.names_works:
                for i, dur in enumerate(log.durations[name]):
                    if not isnan(dur):
                        check(dur == full.durations[name][i], lambda: f"{w}: durations {log.durations} instead of {full.durations}", "truncated-durations")
            rec.count("evaluations")
            if 0 < now[0] and now != (len(full.works), len(full.works_ended)):
                rec.nontrivial((what, path.name, n))
        check(last == (len(full.works), len(full.works_ended)), f"{what}: last truncation {last}", "truncated")


TEXTS = (
    "TPS interpolation (im00.png-im01.png, smoothing_coef=5.0, threshold=1.5).",
    "INFO: work",
    "0.12 s",
)


def interleavings(rec, what, writes, window):
    """writes: what is written in the log, by pieces. All the placements of the two
    writes (text and end of line) of a print of another thread."""
    pieces = [s for _, s in writes]
    with tmpdir() as d:
        path = d / "log_0.txt"
        path.write_text("".join(pieces))
        ref = public(load(path))
        if not ref["works"]:
            return
        # first piece which can be mixed with something else: the first work
        first = 0
        for i in range(len(pieces)):
            path.write_text("".join(pieces[: i + 1]))
            if load(path).works:
                first = i
                break
        for text in TEXTS:
            for i in range(first, len(pieces) + 1):
                for j in range(i, min(i + window, len(pieces)) + 1):
                    new = pieces[:i] + [text] + pieces[i:j] + ["\n"] + pieces[j:]
                    path.write_text("".join(new))
                    w = f"{what}: {text!r} written by another thread before piece {i} {pieces[i:i+1]} and end of line before piece {j}"
                    try:
                        got = public(load(path))
                    except Exception as err:  # noqa
                        check(False, f"{w}: {err!r}", "mixed-error")
                    check(got == ref, lambda: f"{w}: " + "; ".join(f"{k} {got[k]} instead of {ref[k]}" for k in ref if got[k] != ref[k]), "mixed")
                    rec.count("evaluations")
                    rec.nontrivial((what, i, j, text))


def plots(rec, what, log):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np

    def done(func, *args):
        plt.close("all")
        with quiet():
            func(*args)
        return plt.gcf().axes[0]

    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = done(log.plot_memory)
        xs = np.concatenate([np.atleast_1d(line.get_xdata()) for line in ax.lines])
        ys = np.concatenate([np.atleast_1d(line.get_ydata()) for line in ax.lines])
        pts = set(zip(map(float, xs), map(float, ys)))
        exp = {(w["time"], w["mem_start"]) for w in log.works} | {(0.0, log.mem_start), (log.duration, log.mem_end)}
        check(pts == exp, lambda: f"{what}: plot_memory {sorted(pts)} instead of {sorted(exp)}", "plot-memory")

        ax = done(log.plot_durations)
        legend = [t.get_text() for t in ax.get_legend().get_texts()]
        check(legend == log.names_works, f"{what}: legend {legend}", "plot-durations")
        marked = [line for line in ax.lines if line.get_marker() == "o"]
        check(len(marked) == len(legend), f"{what}: {len(marked)} lines", "plot-durations")
        for name, line in zip(legend, marked):
            got = sorted(map(repr, zip(map(float, line.get_xdata()), map(float, line.get_ydata()))))
            exp = sorted(map(repr, zip(map(float, log.times[name]), map(float, log.durations[name]))))
            check(got == exp, f"{what}: plot_durations {name} {got} instead of {exp}", "plot-durations")

        roles = [None] + sorted({n for n in log.names_works}) + ["_", "i", "zzz"]
        for str_names in roles:
            ax = done(log.plot_nb_workers, *(() if str_names is None else (str_names,)))
            exp_names = [n for n in log.names_works if str_names is None or str_names in n]
            legend = [t.get_text() for t in ax.get_legend().get_texts()]
            check(legend == exp_names, f"{what}: plot_nb_workers({str_names!r}) for {legend} instead of {exp_names}", "plot-workers")
            for name, line in zip(legend, ax.lines):
                xs, ys = map(np.asarray, line.get_data())
                inter = [(t, t + (np.inf if isnan(dur) else dur)) for t, dur in zip(log.times[name], log.durations[name])]
                for k in range(len(xs) - 1):
                    if xs[k] < xs[k + 1] - 1e-9:
                        mid = 0.5 * (xs[k] + xs[k + 1])
                        exp = sum(a <= mid < b for a, b in inter)
                        check(ys[k] == ys[k + 1] == exp, lambda: f"{what}: {ys[k]}, {ys[k+1]} workers for {name} at {mid} instead of {exp} ({inter})", "plot-workers")
                ok = [x for x in xs if not isnan(float(x))]
                ends = [v for ab in inter for v in ab if np.isfinite(v)]
                if len(ends) > 1:
                    check(ok and min(ok) == min(ends) and max(ok) == max(ends), f"{what}: workers between {ok[:1]} {ok[-1:]} instead of {min(ends), max(ends)}", "plot-workers")
            rec.count("evaluations")
        plt.close("all")


def case_real(rec, executor, names, plan, nb, deep):
    what = f"{executor} nb={nb} {names} {plan}"
    with tmpdir() as d:
        topo, real, t0, t1, writes = one_run(d, executor, names, plan, nb)
        log = load(d / "res")
        verify(what, log, topo, executor, names, plan, real, t0, t1, nb)
        rec.count("evaluations")
        # the other forms of the path
        ref = public(log)
        paths = [str(d / "res"), log.path_log_file, str(log.path_log_file)]
        if log.path_log_dir != d / "res":
            paths.append(log.path_log_dir)
        else:
            check(not log.paths_log_files, f"{what}: process files {log.paths_log_files}", "paths")
        for p in paths:
            check(public(load(p)) == ref, f"{what}: other data for the path {p!r}", "path")
            rec.count("evaluations")
        plots(rec, what, log)
        if deep:
            files = [log.path_log_file] + list(log.paths_log_files)
            for f in files:
                truncations(rec, what, Path(f), deep)
            interleavings(rec, what, writes, 3)
        rec.sample(dict(what=what, durations={k: list(map(float, v)) for k, v in log.durations.items()}))


def case_synthetic(rec, times, same):
    """works of known intervals: analysis of overlapping and unfinished works"""
    with tmpdir() as d:
        # format: the one of a real log
        topo, real, t0, t1, writes = one_run(d, "exec_sequential", NAMES[:1], {}, 1)
        path = load(d / "res").path_log_file
        lines = path.read_text().splitlines(True)
        launch = [x for x in lines if "Launch work" in x][0]
        done = [x for x in lines if x.startswith("work ") and " done in " in x][0]
        import re

        def key(i):
            return "kind='global'" if same else f"k{i}"

        def make(intervals):
            events = []
            for i, (a, dur) in enumerate(intervals):
                s = re.sub(r"\d+\.\d\d s\. Launch", f"{a:.2f} s. Launch", launch).replace(NAMES[0], key(i))
                events.append((a, 0, i, s))
                if dur is not None:
                    s = re.sub(r"done in \d+\.\d+ s", f"done in {dur:.3f} s", done).replace(NAMES[0], key(i))
                    events.append((a + dur, 1, i, s))
            return "".join(e[3] for e in sorted(events))

        end = [i for i, x in enumerate(lines) if "end of `compute`" in x][0]
        start = [i for i, x in enumerate(lines) if "Launch work" in x][0]
        out = d / "log_1.txt"
        for intervals in times:
            out.write_text("".join(lines[:start]) + make(intervals) + "".join(lines[end:]))
            log = load(out)
            (name,) = log.names_works
            order = sorted(range(len(intervals)), key=lambda i: (intervals[i][0], i))
            exp_t = sorted((key(i), a, -1.0 if dur is None else dur) for i, (a, dur) in enumerate(intervals))
            got = sorted((k, t, -1.0 if isnan(dur) else dur) for k, t, dur in zip(log.keys[name], log.times[name], log.durations[name]))
            check(got == exp_t, f"intervals {intervals}: {got} instead of {exp_t}", "synthetic")
            plots(rec, f"intervals {intervals} {same}", log)
            rec.nontrivial((intervals, same))


def case_last(rec, first, second):
    """two computations in the same directory: the last log is read"""
    what = f"{first} then {second}"
    with tmpdir() as d:
        topo, *_ = one_run(d, first, NAMES[:2], {}, 2)
        log0 = load(d / "res")
        ref0 = public(log0)
        time.sleep(1.02)
        topo, real, t0, t1, writes = one_run(d, second, NAMES[:2], {"im01.png": "raise"}, 2)
        log = load(d / "res")
        verify(what, log, topo, second, NAMES[:2], {"im01.png": "raise"}, real, t0, t1, 2)
        check(public(load(log0.path_log_file)) == ref0, f"{what}: log of the first computation modified", "first")
        rec.count("evaluations", 2)
        rec.nontrivial(what)


def case_errors(rec):
    with tmpdir() as d:
        for sub in ("", "log_1"):
            p = d / sub
            p.mkdir(exist_ok=True)
            try:
                load(p)
            except ValueError:
                pass
            except Exception as err:  # noqa
                check(False, f"directory without log file {sub!r}: {err!r}", "no-log")
            else:
                check(False, f"no error for a directory without log file {sub!r}", "no-log")
            rec.count("evaluations")


def case(rec, case):
    globals()["case_" + case[0]](rec, *case[1:])


def cases(quick):
    out = []
    slow = []
    for ex in SINGLE + MULTI + SUBPROC:
        nb = 2
        plan = {NAMES[1]: "raise", NAMES[2]: "slow"}
        dest = out if ex in SINGLE else slow
        dest.append(("real", ex, NAMES, plan, nb, 1))
        if ex in SUBPROC and quick:
            continue
        dest.append(("real", ex, ODD, {ODD[0]: "print", ODD[2]: "raise"}, 3, 0 if quick else 1))
        plans = [{NAMES[0]: "corrupted"}, {}]
        if not quick:
            plans += [{n: a} for n in NAMES for a in ("raise", "corrupted", "slow", "print")]
            plans += [{m: "raise", n: a} for m, n in permutations(NAMES[:3], 2) for a in ("slow", "corrupted")]
        for plan in plans:
            if not set(plan) <= set(NAMES[:3]):
                continue
            for nb in (1, 2) if quick else (1, 2, 3, 4):
                dest.append(("real", ex, NAMES[:3], plan, nb, 0))
    # all the sets of intervals
    values = [(a, dur) for a in (0.0, 0.5, 1.0) for dur in (None, 0.0, 0.5, 0.75, 1.0)]
    sets = [(v,) for v in values] + [c for c in combinations(values, 2)]
    if not quick:
        sets += list(combinations(values, 3)) + list(permutations(values, 2))
    for i in range(0, len(sets), 20):
        out.append(("synthetic", sets[i : i + 20], False))
    # the same key several times (global works): the works do not overlap
    def ok(c):
        c = sorted(c, key=repr)
        return all(c[i][1] is not None and c[i][0] + c[i][1] <= c[i + 1][0] and c[i][0] < c[i + 1][0] for i in range(len(c) - 1))

    sets = [c for c in sets if ok(c)]
    for i in range(0, len(sets), 20):
        out.append(("synthetic", sets[i : i + 20], True))
    for a, b in (("exec_async", "multi_exec_async"), ("multi_exec_async", "exec_async"), ("exec_async", "exec_sequential"), ("multi_exec_async", "multi_exec_sync")):
        slow.append(("last", a, b))
    out.append(("errors",))
    return slow + out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=300, chunk=1)
