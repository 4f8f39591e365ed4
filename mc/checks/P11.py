"""P11: the monitor shows the real state of the last computation, whenever it looks at it"""
import asyncio
import builtins
import contextlib
import io
import json
import os
import shutil
import sys
import types
from datetime import datetime
from pathlib import Path

from .. import data
from ..common import check, quiet, tmpdir

data.fast_polls()

LEVEL = "model_checking"
RULE = (
    "States: the contents of the job directory at each line executed by the real executor (files truncated and not yet written "
    "included); for several processes, the product of the states recorded for each process. Transitions: the monitor (real textual "
    "application, headless) started in each state, its files changing to the next or last state after each of its accesses to the "
    "files, then its updates until it stops its timer. Non trivial: files changing during an access of the monitor."
)
ASSUMPTIONS = [
    "one access to a file by the monitor (stat, listing, open and read) is atomic: changes happen between accesses",
    "two computations in one directory do not start in the same second",
    "for several processes, all the combinations of the states of the processes are considered possible",
]

FMT = "%Y-%m-%d_%H-%M-%S"


# ---------------------------------------------------------------- recording of the states


def snapshot(res):
    """{relative path: content} of the job directories"""
    out = {}
    for job in sorted(Path(res).glob("job_*")):
        out[job.name + "/"] = None
        for p in sorted(job.iterdir()):
            try:
                out[f"{job.name}/{p.name}"] = p.read_text()
            except OSError:
                pass
    return out


class Recorder:
    """records the distinct contents of the job directories at each line of the code writing them"""

    def __init__(self, res, obs):
        self.res, self.obs = Path(res), Path(obs)
        self.last = None
        self.pid = os.getpid()

    def look(self):
        if os.getpid() != self.pid:
            self.pid, self.last = os.getpid(), None
        s = snapshot(self.res)
        if s != self.last:
            self.last = s
            sys.settrace(None)
            with open(self.obs / f"{self.pid}", "a") as f:
                f.write(json.dumps(s) + "\n")
            sys.settrace(self)

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if "/fluidimage/executors/" in name or "paramcontainer" in name:
            return self.line
        if "pathlib" in name and frame.f_code.co_name in ("write_text", "write_bytes", "touch", "unlink"):
            return self.line
        return None

    def line(self, frame, event, arg):
        self.look()
        return self.line

    def __enter__(self):
        sys.settrace(self)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        self.look()
        sys.settrace(None)


def record(d, kind, executor, n, how="recompute", nb=2, **kw):
    """run a computation; return topology, exception, list of states per pid (main first)"""
    names = data.names_1d(n)
    if not (d / "im").exists():
        data.make_images(d / "im", names, shape=(32, 32))
    obs = d / "obs"
    shutil.rmtree(obs, ignore_errors=True)
    obs.mkdir()
    with quiet():
        params = data.make_params(kind, d / "im", how, d / "res", **kw)
        topo = data.topo_class(kind)(params)
    with Recorder(topo.path_dir_result, obs):
        exc = data.compute(topo, executor, nb)
    main = os.getpid()
    logs = {int(p.name): [json.loads(line) for line in p.read_text().splitlines()] for p in obs.iterdir()}
    return topo, exc, logs.pop(main), logs


def product_states(main, others, job):
    """states of a computation by several processes: contents of the files of each process
    in all the combinations between the creation of the description and the end"""
    import itertools

    def own(s):
        return {k: v for k, v in s.items() if "/len_results" in k}

    def rest(s):
        return {k: v for k, v in s.items() if "results" not in k.split("/")[-1]}

    def distinct(seq):
        out = []
        for s in seq:
            if not out or out[-1] != s:
                out.append(s)
        return out

    files = sorted({k for s in main + [s for o in others.values() for s in o] for k in own(s)})
    seqs = []
    for f in files:
        # the process which writes this file is the one which sees all its contents
        seen = [distinct([s.get(f) for s in log]) for log in [main, *others.values()]]
        seq = max(seen, key=len)
        if seq[0] is not None:
            seq = [None, *seq]
        seqs.append(seq)
    last = main[-1]
    for f, seq in zip(files, seqs):
        check(seq[-1] == last.get(f), f"contents {seq} recorded for {f}, but {last.get(f)!r} at the end", "record")
    phases = distinct([rest(s) for s in main])
    ready = next(i for i, s in enumerate(phases) if s.get(f"{job}/info.xml"))
    end = next(i for i, s in enumerate(phases) if f"{job}/time_end.txt" in s)
    states, succ = [], {}
    for s in phases[:ready]:
        states.append((s, {}))
    first = len(states)
    index = {}
    for combi in itertools.product(*[range(len(q)) for q in seqs]):
        index[combi] = len(states)
        contents = {f: q[i] for f, q, i in zip(files, seqs, combi) if q[i] is not None}
        states.append(({**phases[ready], **contents}, {f: q[: i + 1] for f, q, i in zip(files, seqs, combi)}))
    for combi, i in index.items():
        nexts = []
        for k, q in enumerate(seqs):
            if combi[k] + 1 < len(q):
                nexts.append(index[combi[:k] + (combi[k] + 1,) + combi[k + 1 :]])
        succ[i] = nexts
    lastc = len(states) - 1
    full = {f: q[-1] for f, q in zip(files, seqs)}
    hist = {f: q for f, q in zip(files, seqs)}
    for s in phases[end:]:
        states.append(({**s, **full}, hist))
    for i in range(len(states)):
        if i < first:
            succ[i] = [i + 1]
        elif i >= lastc:
            succ[i] = [i + 1] if i + 1 < len(states) else []
    return states, succ


def linear_states(main):
    """states of a computation by one process, with the history of each len_results"""
    states, succ = [], {}
    hist = {}
    for i, s in enumerate(main):
        for k, v in s.items():
            if "/len_results" in k:
                q = hist.setdefault(k, [])
                if not q or q[-1] != v:
                    q.append(v)
        states.append((s, {k: list(v) for k, v in hist.items()}))
        succ[i] = [i + 1] if i + 1 < len(main) else []
    return states, succ


# ---------------------------------------------------------------- the monitor


class FakeTimer:
    """timer of the application, fired by the explorer"""

    def __init__(self, callback):
        self.callback, self.active = callback, True

    def pause(self):
        self.active = False

    stop = pause

    def resume(self):
        self.active = True


class Accesses:
    """counts the accesses of the monitor to the files; the state changes after the access number `after`"""

    def __init__(self, root):
        self.root = str(root)
        self.n = 0
        self.after = None
        self.action = None

    def hit(self, path):
        if self.root in str(path):
            self.n += 1
            if self.after is not None and self.n == self.after:
                self.after = None
                self.action()

    def wrap(self, func):
        def new(path=".", *args, **kwargs):
            try:
                return func(path, *args, **kwargs)
            finally:
                if isinstance(path, (str, os.PathLike)):
                    self.hit(path)

        return new

    def wrap_open(self, func):
        """the content is read at the opening"""

        def new(path, mode="r", *args, **kwargs):
            f = func(path, mode, *args, **kwargs)
            if isinstance(path, (str, os.PathLike)) and self.root in str(path):
                with f:
                    content = f.read()
                self.hit(path)
                f = io.BytesIO(content) if "b" in mode else io.StringIO(content)
                f.name = str(path)
            return f

        return new

    def __enter__(self):
        self.saved = [(m, k, getattr(m, k)) for m, k in (
            (os, "stat"), (os, "scandir"), (os, "listdir"), (builtins, "open"), (io, "open"),
        )]
        for m, k, f in self.saved:
            setattr(m, k, (self.wrap_open if k == "open" else self.wrap)(f))
        return self

    def __exit__(self, *args):
        for m, k, f in self.saved:
            setattr(m, k, f)


class World:
    """the states of the directory as real directories, and a link to the current one"""

    def __init__(self, d, states, succ, job):
        self.states, self.succ, self.job = states, succ, job
        self.dir = Path(d) / "world"
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir.mkdir()
        for i, (s, _) in enumerate(states):
            root = self.dir / f"{i}"
            root.mkdir()
            for k, v in s.items():
                if k.endswith("/"):
                    (root / k).mkdir(exist_ok=True)
            for k, v in s.items():
                if not k.endswith("/"):
                    (root / k).parent.mkdir(exist_ok=True)
                    (root / k).write_text(v)
        self.link = self.dir / "results"
        self.last = len(states) - 1

    def goto(self, i):
        tmp = self.dir / "tmp_link"
        os.symlink(f"{i}", tmp)
        os.replace(tmp, self.link)
        self.current = i

    def announced(self, i):
        """number of results announced until state i"""
        return sum(max([int(c) for c in q if c and c.strip()] or [0]) for q in self.states[i][1].values())

    def written(self, i):
        """number of results which can be read in state i"""
        return sum(int(v) for k, v in self.states[i][0].items() if k.split("/")[0] == self.job and "/len_results" in k and v.strip())

    def lock(self, i, job):
        return f"{job}/is_running.lock" in self.states[i][0]

    def info(self, i):
        """name of the last job with a complete description"""
        jobs = sorted(k.split("/")[0] for k, v in self.states[i][0].items() if k.endswith("/info.xml") and v)
        return jobs[-1] if jobs else None


class Fake:
    """light stand-in for the widgets of textual"""

    def __init__(self, *args, **kwargs):
        d = self.__dict__
        d["args"], d["kwargs"] = args, kwargs
        d["text"] = str(args[0]) if args else ""
        d["rows"], d["children"], d["leaves"] = [], [], []
        d["progress"] = d["total"] = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def update(self, *args, **kwargs):
        if args:
            self.text = str(args[0])
        self.__dict__.update(kwargs)

    def add_rows(self, rows):
        self.rows.extend(tuple(r) for r in rows)

    def add_row(self, *row, **kwargs):
        self.rows.append(row)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        child = Fake()
        self.__dict__[name] = child
        return child

    def __call__(self, *args, **kwargs):
        return Fake()


FAKED = (
    "DataTable", "Digits", "Footer", "Header", "Label", "Markdown", "ProgressBar", "Rule", "TabbedContent", "TabPane",
    "Tree", "Center", "Horizontal", "Middle",
)


def make_app(path, fake):
    """the application, with a timer fired by the explorer (and, if fake, without a terminal)"""
    from fluidimage.gui import monitor

    class App(monitor.MonitorApp):
        def set_interval(self, interval, callback=None, *args, **kwargs):
            timer = FakeTimer(callback)
            self.__dict__.setdefault("mc_timers", []).append(timer)
            return timer

        def exit(self, *args, **kwargs):
            self.mc_exited = True
            return super().exit(*args, **kwargs)

        if fake:

            def query_one(self, selector, *args):
                kind = getattr(selector, "__name__", str(selector))
                return next(w for w in self.mc_widgets if type(w).__name__ == kind)

            def bind(self, *args, **kwargs):
                self.mc_bindings.append((args, kwargs))

    App.CSS_PATH = str(Path(sys.modules[monitor.MonitorApp.__module__].__file__).with_name("monitor.tcss"))
    null = io.StringIO()
    with contextlib.redirect_stdout(null):
        app = App(types.SimpleNamespace(path=str(path), version=None, verbose=None))
    return app


def start_fake(app):
    """what textual does at the start of the application"""
    from fluidimage.gui import monitor

    created = app.mc_widgets = []
    app.mc_bindings = []
    saved = {k: getattr(monitor, k) for k in FAKED if hasattr(monitor, k)}
    try:
        for k in saved:

            def __init__(self, *args, **kwargs):
                Fake.__init__(self, *args, **kwargs)
                created.append(self)

            setattr(monitor, k, type(k, (Fake,), {"__init__": __init__}))
        for _ in app.compose():
            pass
        app.on_mount()
    finally:
        # the classes are used as selectors
        app.mc_classes = {k: getattr(monitor, k) for k in saved}
        for k, v in saved.items():
            setattr(monitor, k, v)


def displayed(app):
    """(number, running, times, table, total)"""
    if hasattr(app, "mc_widgets"):
        labels = [w.text for w in app.mc_widgets if type(w).__name__ == "Label"]
        number = app.query_one("Digits").text
        bar = app.query_one("ProgressBar")
        rows = {str(r[0]): r[1] for r in app.query_one("DataTable").rows}
    else:
        from textual.widgets import DataTable, Digits, Label, ProgressBar

        labels = [str(w.renderable) for w in app.query(Label)]
        number = app.query_one(Digits).value
        bar = app.query_one(ProgressBar)
        table = app.query_one(DataTable)
        rows = dict(table.get_row_at(i) for i in range(table.row_count))
    running = [t for t in labels if t.startswith("Running: ")]
    check(len(running) == 1, f"labels {labels}", "display")
    number = int(number)
    check(bar.progress == number, f"progress bar at {bar.progress} but {number} results", "display")
    times = [t for t in labels if t.startswith(("Started since ", "Total duration: "))]
    check(len(times) == 1, f"labels {labels}", "display")
    return number, running[0] == "Running: True", times[0], rows, bar.total


def explore_monitor(rec, world, job, total, old, quick, what):
    """all the starts and updates of the monitor with the states changing in between"""

    def one(start, plan, key, fake=True):
        """start the monitor in state `start`; plan: list of (state at the beginning of the phase or None,
        number of accesses before the change or None, new state) for the construction and each update"""
        rec.count("transitions")
        acc = Accesses(world.link)
        nb_accesses = []
        world.goto(start)
        txt = f"{what}: monitor started in state {start}, {plan}"
        history = []

        def arm(step):
            begin, after, target = step
            if begin is not None:
                world.goto(begin)
            acc.n = 0
            acc.after = after
            acc.action = lambda: world.goto(target)
            acc.begin = world.current

        def disarm():
            nb_accesses.append(acc.n)
            if acc.after is not None:
                # not reached: the change happens now
                acc.after = None
                acc.action()

        seen = [0]

        def look(app):
            number, running, times, rows, _ = displayed(app)
            i, j = acc.begin, world.current
            lo = max(min(world.written(i), world.written(j)), seen[-1])
            check(lo <= number <= world.announced(j), f"{txt}: {number} results displayed instead of {lo} to {world.announced(j)}", key + ":number")
            seen.append(number)
            if world.lock(i, job) == world.lock(j, job):
                check(running == world.lock(j, job), f"{txt}: running={running} displayed", key + ":running")
            history.append((number, running, times.split()[0]))

        def started(app):
            """False if it is not this job"""
            shown = app.info_job["time_start"]
            if shown in job:
                look(app)
                return True
            check(not world.info(start) == job, f"{txt}: job of {shown} displayed", key + ":job")
            number, running, times, _, _ = displayed(app)
            check((number, running) == (old, False) and times.startswith("Total"), f"{txt}: {number}, {running}, {times} displayed for the previous job", key + ":old")
            history.append("previous")
            return False

        def updates(app):
            timer = app.mc_timers[-1]
            for step in plan[1:]:
                if not timer.active:
                    break
                with acc:
                    arm(step)
                    timer.callback()
                    disarm()
                look(app)
            # the end of the computation
            world.goto(world.last)
            for _ in range(3):
                if not timer.active:
                    break
                timer.callback()
            check(not timer.active, f"{txt}: the monitor still polls a finished computation", key + ":timer")
            number, running, times, rows, bar_total = displayed(app)
            check_final(world, job, app, number, running, times, rows, bar_total, total, txt, key)
            history.append((number, running, times))

        with acc:
            arm(plan[0])
            app = make_app(world.link, fake)
            disarm()
        if getattr(app, "mc_exited", False):
            check(world.info(start) is None, f"{txt}: no job found", key + ":no-job")
            history.append("no job")
        elif fake:
            start_fake(app)
            if started(app):
                updates(app)
        else:

            async def main():
                async with app.run_test():
                    if started(app):
                        updates(app)

            asyncio.run(main())
        if any(p[1] is not None for p in plan):
            rec.nontrivial((what, start, tuple(plan)))
        if fake:
            return nb_accesses
        return history

    n = len(world.states)
    reachable = {}
    for i in reversed(range(n)):
        reachable[i] = {i}.union(*[reachable[j] for j in world.succ[i]])
    rec.count("states", n)

    def targets(i):
        out = list(world.succ[i])
        if not quick:
            for j in world.succ[i]:
                out += world.succ[j]
        out.append(world.last)
        return sorted(set(out) - {i})

    none = (None, None, None)
    for i in range(n):
        nb = one(i, [none, none], "start")
        for j in targets(i):
            for k in range(1, nb[0] + 1):
                one(i, [(None, k, j), none], "start")
    # updates: the monitor started as soon as possible
    first = next(i for i in range(n) if world.info(i) == job)
    for i in sorted(reachable[first]):
        nb = one(first, [none, (i, None, None), none], "update")
        if len(nb) < 2:
            continue
        for j in targets(i):
            for k in range(1, nb[1] + 1):
                one(first, [none, (i, k, j), none], "update")
    # the same with the real application: the stand-ins are faithful
    some = range(n) if not quick else [i for i in range(n) if i % max(1, n // 6) == 0]
    for i in some:
        one(i, [none, none], "real", fake=False)
        rec.count("traces")


def check_final(world, job, app, number, running, times, rows, bar_total, total, txt, key):
    final = world.states[world.last][0]
    t0 = datetime.strptime(app.info_job["time_start"], FMT)
    t1 = datetime.strptime(final[f"{job}/time_end.txt"].strip(), FMT)
    check(number == total == bar_total, f"{txt}: {number} results over {bar_total} displayed at the end instead of {total}", key + ":final")
    check(not running, f"{txt}: displayed as running at the end", key + ":final")
    check_duration(times, (t1 - t0).total_seconds(), number, app, txt, key)
    check(rows.get("num_expected_results") == total, f"{txt}: table {rows}", key + ":table")


def clock(seconds):
    """a duration as it is displayed"""
    if seconds < 60:
        return f"{seconds:.2f} s"
    n = int(seconds)
    return f"{n // 3600:02d}:{n // 60 % 60:02d}:{n % 60:02d}"


def check_duration(times, seconds, number, app, txt, key):
    expected = f"Total duration: {clock(seconds)}"
    if number:
        expected += f" ({seconds * app.info_job['nb_cpus_allowed'] / number:.2f} s.CPU/result)"
    check(times == expected, f"{txt}: {times!r} displayed at the end instead of {expected!r}", key + ":final")


def rename_job(states, old, new):
    """other date for a job (computations of the same second excluded)"""
    out = []
    for s in states:
        t = {}
        for k, v in s.items():
            t[k.replace(old, new)] = v.replace(old[4:23], new[4:23]) if isinstance(v, str) else v
        out.append(t)
    return out


def case_dynamic(rec, case):
    _, executor, n, previous, quick = case
    with tmpdir() as d:
        topo, exc, main, others = record(d, "im2im", executor, n)
        rec.count("traces")
        check(exc is None, f"{executor}: raised {exc!r}", "raised")
        total = len(topo.results)
        check(total == n, f"{executor}: {total} results", "results")
        job = sorted({k.split("/")[0] for k in main[-1]})[-1]
        if executor.startswith("multi"):
            states, succ = product_states(main, others, job)
        else:
            states, succ = linear_states(main)
        for s, hist in states:
            for q in hist.values():
                check(all(not c or int(c) <= n for c in q), f"{executor}: announced {q}", "announced")
        old = None
        if previous:
            # a previous finished computation with other results in the same directory
            prev = dict(rename_job([main[-1]], job, "job_2020-01-01_00-00-00_1")[0])
            states = [({**prev, **s}, h) for s, h in states]
            old = total
        else:
            old = 0
        # the directory is what the real computation leaves
        check({k: v for k, v in states[-1][0].items() if k.startswith(job) and "/results" not in k} == {k: v for k, v in main[-1].items() if "/results" not in k}, "last state", "record")
        world = World(d, states, succ, job)
        explore_monitor(rec, world, job, total, old, quick, f"{executor} {n} images previous={previous}")


def tree_lines(node):
    """{path: (leaves, params node)} of the tree displayed"""
    out = {}

    def visit(node, path):
        leaves = []
        for child in node.children:
            if child.data is None and not child.children:
                leaves.append(str(child.label))
            else:
                visit(child, path + (str(child.label),))
        out[path] = sorted(set(leaves))

    visit(node, ())
    return out


def params_lines(params):
    out = {}

    def visit(p, path):
        out[path] = sorted(f"{k} = {p[k]!r}" for k in set(p._get_key_attribs()))
        for tag in p._tag_children:
            visit(p[tag], path + (tag,))

    visit(params, ())
    return out


def docs(params):
    out = {}

    def visit(p, path):
        out[path] = p._doc
        for tag in p._tag_children:
            visit(p[tag], path + (tag,))

    visit(params, ())
    return out


def look_static(rec, topo, path, executor, expected, number, what):
    """open the real application in a directory, compare what is displayed with the last computation"""
    from textual.widgets import Label, Markdown, TabbedContent, Tree

    launched = []

    async def main():
        app = make_app(path, False)
        check(not getattr(app, "mc_exited", False), f"{what}: no job found", "static:no-job")
        async with app.run_test() as pilot:
            number_d, running, times, rows, total = displayed(app)
            check(not running, f"{what}: displayed as running", "static:running")
            check(not app.mc_timers[-1].active, f"{what}: the monitor polls a finished computation", "static:timer")
            if number is not None:
                check(number_d == number, f"{what}: {number_d} results displayed instead of {number}", "static:number")
            if expected is not None:
                check(total == expected and rows["num_expected_results"] == expected, f"{what}: total {total} instead of {expected}", "static:total")
            info = sorted(Path(topo.path_dir_result).glob("job_*"))[-1]
            t0, t1 = app.info_job["time_start"], (info / "time_end.txt").read_text().strip()
            check_duration(times, (datetime.strptime(t1, FMT) - datetime.strptime(t0, FMT)).total_seconds(), number_d, app, what, "static")
            cls = type(topo)
            check(str(rows["topology"]).split(".")[-1] == cls.__name__, f"{what}: topology {rows['topology']}", "static:table")
            if executor is not None:
                name = type(topo.executor).__name__
                check(str(rows["executor"]).split(".")[-1] == name, f"{what}: executor {rows['executor']} instead of {name}", "static:table")
                check(rows["nb_max_workers"] == topo.executor.nb_max_workers, f"{what}: nb_max_workers {rows['nb_max_workers']}", "static:table")
            labels = [str(w.renderable) for w in app.query(Label)]
            check(any(str(Path(path)) in t for t in labels), f"{what}: directory not in {labels}", "static:table")
            # parameters
            await pilot.press("p")
            check(app.query_one(TabbedContent).active == "params", f"{what}: key p", "static:keys")
            tree = app.query_one(Tree)
            got, want = tree_lines(tree.root), params_lines(topo.params)
            check(set(got) == set(want), f"{what}: branches {sorted(got)} instead of {sorted(want)}", "static:params")
            for k in want:
                check(norm(got[k]) == norm(want[k]), f"{what}: {k}: {got[k]} instead of {want[k]}", "static:params")
            default = docs(cls.create_default_params())

            def visit(node, path):
                # selecting a node shows its documentation
                md = app.query_one(Markdown)
                if path in default:
                    shown = []
                    md_update = md.update
                    md.update = lambda text, *a: shown.append(text)
                    app.on_tree_node_selected(types.SimpleNamespace(node=node))
                    md.update = md_update
                    check(shown == [default[path]], f"{what}: documentation of {path}", "static:doc")
                for child in node.children:
                    if child.data is not None:
                        visit(child, path + (str(child.label),))

            visit(tree.root, ())
            await pilot.press("i")
            check(app.query_one(TabbedContent).active == "info", f"{what}: key i", "static:keys")
            import subprocess

            real = subprocess.run
            subprocess.run = lambda cmd, *a, **k: launched.append(cmd)
            try:
                await pilot.press("f")
            finally:
                subprocess.run = real
            if cls.__name__ == "TopologyPIV":
                check(len(launched) == 1 and Path(launched[0][-1]).resolve() == Path(path).resolve(), f"{what}: viewer {launched}", "static:keys")

    asyncio.run(main())
    rec.count("states")
    rec.count("transitions")
    rec.nontrivial(what)


def case_durations(rec, case):
    """any duration of the computation, finished or not"""
    import re
    from datetime import timedelta

    with tmpdir() as d:
        data.make_images(d / "im", data.names_1d(3), shape=(32, 32))
        with quiet():
            topo = data.topo_class("im2im")(data.make_params("im2im", d / "im", "recompute", d / "res"))
        exc = data.compute(topo, "exec_sequential", 1)
        check(exc is None, f"raised {exc!r}", "raised")
        job = next((d / "res").glob("job_*"))
        path_end, path_info = job / "time_end.txt", job / "info.xml"
        info = path_info.read_text()
        start = re.search(r'time_start="([^"]*)"', info).group(1)
        seconds = {0, 1}
        for unit in (60, 3600, 86400, 7 * 86400, 40 * 86400):
            for n in (1, 2, 25):
                seconds |= {unit * n + x for x in (-1, 0, 1, 61)}
        for t0 in ("2023-12-31_23-59-58", "2024-02-28_12-00-00", start):
            path_info.write_text(info.replace(start, t0))
            t = datetime.strptime(t0, FMT)
            for s in sorted(seconds):
                path_end.write_text((t + timedelta(seconds=s)).strftime(FMT) + "\n")
                app = make_app(d / "res", True)
                check_duration(app.compute_times_str(), s, 3, app, f"computation of {s} s started at {t0}", "durations")
                rec.count("states")
        path_end.unlink()
        (job / "is_running.lock").write_text("")
        for s in sorted(seconds):
            t0 = datetime.now().replace(microsecond=0) - timedelta(seconds=s)
            path_info.write_text(info.replace(start, t0.strftime(FMT)))
            app = make_app(d / "res", True)
            got = app.compute_times_str()
            now = (datetime.now() - t0).total_seconds()
            value = float(re.search(r"\((.*) s.CPU", got).group(1)) * 3 / app.info_job["nb_cpus_allowed"]
            check(s - 0.1 <= value <= now + 0.1, f"running since {s} s: {got}", "durations")
            shown = re.match(r"Started since (\S+( s)?) \(", got)
            check(shown is not None, f"running since {s} s: {got}", "durations")
            if s >= 60:
                check(shown.group(1) in [clock(v) for v in range(s, int(now) + 2)], f"running since {s} s: {got}", "durations")
            rec.count("states")
        rec.nontrivial("durations")


def norm(lines):
    """values after a saving in a file: a path is a string"""
    import re

    return sorted(re.sub(r"PosixPath\((.*)\)", r"\1", line) for line in lines)


def case_static(rec, case):
    _, kind, executor, outcome = case
    what = f"{kind} {executor} {outcome}"
    with tmpdir() as d:
        if kind == "surf":
            names = data.make_surf_images(d, 3)
            kw = dict(path_ref=d / "ref")
        else:
            names = data.names_1d(4)
            data.make_images(d / "im", names, shape=(32, 32))
            kw = {}
        if outcome == "corrupted":
            (d / "im" / names[-1]).write_bytes(b"no image")

        def one(how):
            with quiet():
                params = data.make_params(kind, d / "im", how, d / "res", **kw)
                if outcome == "extra":
                    params._set_child("compute_kwargs", attribs={"executor": executor, "nb_max_workers": 2})
                topo = data.topo_class(kind)(params)
            exc = data.compute(topo, executor, 2)
            return topo, exc

        topo, exc = one("recompute")
        if exc is not None:
            # nothing to monitor is not an error of the monitor
            check(kind == "surf" or outcome == "corrupted", f"{what}: raised {exc!r}", "raised")
            return
        if outcome == "complete":
            # a second computation, one second later, with one result to be computed
            res = sorted(p for p in (d / "res").iterdir() if p.is_file() and not p.name.startswith("log"))
            os.unlink(res[0])
            wait_second()
            topo, exc = one("complete")
            check(exc is None, f"{what}: raised {exc!r}", "raised")
        number = len(getattr(topo, "results", []))
        expected = number
        if outcome == "corrupted":
            expected = {"piv": 3, "bos": 3, "optical_flow": 3}.get(kind, 4)
        if kind == "mean" and executor.startswith("multi"):
            # partial results of the processes
            number = None
        if kind in ("surf", "mean"):
            # see the known finding of P10 and the partial results of the mean
            expected = None
        forms = {"ok": [d / "res", os.path.relpath(d / "res"), f"{d}/res/"]}.get(outcome, [d / "res"])
        for form in forms:
            look_static(rec, topo, form if form == d / "res" or str(form).startswith("/") else Path(form), executor, expected, number, what)


def wait_second():
    import time

    t = int(time.time())
    while int(time.time()) == t:
        time.sleep(0.05)


def run(ctx):
    q = ctx.quick
    cases = []
    for ex in ("exec_sequential", "exec_async", "multi_exec_async"):
        for previous in (False, True):
            cases.append(("dyn", ex, 2 if q else 3, previous, q))
    cases.reverse()
    executors = ["exec_sequential", "exec_async", "multi_exec_async"]
    if not q:
        executors += ["exec_async_sequential", "exec_async_multi", "exec_async_servers", "multi_exec_subproc", "multi_exec_sync"]
    for kind in ("piv", "bos", "preproc", "optical_flow", "im2im", "mean", "surf"):
        for ex in executors:
            if kind == "surf" and ex.startswith("multi"):
                continue
            for outcome in ("ok", "corrupted", "complete", "extra"):
                if kind in ("mean", "surf") and outcome in ("corrupted", "complete"):
                    continue
                if q and ex != "exec_sequential" and outcome in ("complete", "extra"):
                    continue
                cases.append(("static", kind, ex, outcome))
    cases.append(("durations",))
    ctx.pmap(case, cases, timeout=600 if q else 3000, chunk=1)


def case(rec, case):
    globals()["case_" + {"dyn": "dynamic"}.get(case[0], case[0])](rec, case)
