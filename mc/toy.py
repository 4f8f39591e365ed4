"""Toy topologies (built with the public TopologyBase API) and controlled runs of the
real executors on them."""

import contextlib
import io
import os
import shutil
import sys
import tempfile
from pathlib import Path

from . import sched

EVENTS = []  # (work, argument, "start"|"end")
RUNNING = {"cpu": 0, "io": 0}
PEAK = {"cpu": 0, "io": 0}
CFG = {"park_inside": False}


class ToyError(RuntimeError):
    pass


class ToyBaseError(Exception):
    pass


def _enter(work, arg, kind, fail, item):
    EVENTS.append((work, arg, "start"))
    RUNNING[kind] += 1
    PEAK[kind] = max(PEAK[kind], RUNNING[kind])
    if CFG["park_inside"] and sched.WORLD is not None and not sched.WORLD.over:
        me = sched.WORLD.me
        if me is not None and me is not sched.WORLD.main and me.name.startswith("thr"):
            sched.WORLD.park(f"inside {work} {arg}")
    RUNNING[kind] -= 1
    EVENTS.append((work, arg, "end"))
    for w, it in fail:
        if w == work and it == item:
            raise ToyError(f"planned failure {work} {arg}")


def item_of(v):
    """the item(s) a value comes from: 'b(a(3))' -> '3'"""
    import re

    return "+".join(re.findall(r"\d+", str(v).split("#")[0]))


def make_topology_class():
    from fluiddyn.util.paramcontainer import ParamContainer
    from fluidimage.topologies.base import TopologyBase

    class Toy(TopologyBase):
        _short_name = "toy"

        def __init__(self, params, logging_level="info", nb_max_workers=None):
            super().__init__(
                params,
                path_dir_src=params.src,
                path_dir_result=params.dst,
                logging_level=logging_level,
                nb_max_workers=nb_max_workers,
            )
            self.how_saving = "recompute"
            self.results = []
            spec = self.spec = eval(params.spec)
            self.fail = [tuple(f) for f in spec.get("fail", ())]
            getattr(self, "build_" + spec["shape"])(spec)

        # -- functions
        def fill(self, input_queue, output_queue):
            for i in range(self.spec["n"]):
                output_queue[f"k{i}"] = str(i)

        def f(self, name, kind):
            def func(arg):
                v = arg
                _enter(name, v, kind, self.fail, item_of(v))
                return f"{name}({v})"

            func.__name__ = name
            return func

        def save(self, arg):
            key, v = arg
            _enter("save", (key, v), "io", self.fail, item_of(v))
            self.results.append(key)

        # -- shapes
        def build_linear(self, spec):
            """fill -> w0 -> w1 ... -> save with the given kinds"""
            q = self.add_queue("q fill")
            self.add_work("fill", self.fill, output_queue=q, kind="one shot")
            for i, kind in enumerate(spec["kinds"]):
                q1 = self.add_queue(f"q {i}")
                self.add_work(
                    f"w{i}",
                    self.f(f"w{i}", kind),
                    input_queue=q,
                    output_queue=q1,
                    kind="io" if kind == "io" else None,
                )
                q = q1
            if spec.get("save", True):
                self.add_work("save", self.save, input_queue=q, kind=("io", "eat key value"))
            else:
                self.q_last = q

        def build_nosink(self, spec):
            """last work has no output queue and is cpu"""
            q = self.add_queue("q fill")
            self.add_work("fill", self.fill, output_queue=q, kind="one shot")
            q1 = self.add_queue("q 1")
            self.add_work("w0", self.f("w0", "io"), input_queue=q, output_queue=q1, kind="io")
            self.add_work("save", self.save_cpu, input_queue=q1, kind="eat key value")

        def save_cpu(self, arg):
            key, v = arg
            _enter("save", (key, v), "cpu", self.fail, item_of(v))
            self.results.append(key)

        def build_couples(self, spec):
            """paths -> read -> arrays; couples of consecutive arrays -> cpu -> save"""
            import types

            # several first queues: the expected number of results comes from `series`
            self.series = types.SimpleNamespace(ind_start=0, ind_stop=spec["n"] - 1, ind_step=1)
            qp = self.add_queue("paths")
            qc = self.add_queue("couples of names")
            qa = self.add_queue("arrays")
            qk = self.add_queue("couples of arrays")
            qr = self.add_queue("results")
            self.add_work("fill", self.fill_couples, output_queue=(qc, qp), kind="one shot")
            self.add_work("read", self.f("read", "io"), input_queue=qp, output_queue=qa, kind="io")
            self.add_work(
                "make couples",
                self.make_couples,
                input_queue=(qc, qa),
                output_queue=qk,
                kind="global",
            )
            self.add_work("cpu", self.f("cpu", "cpu"), input_queue=qk, output_queue=qr)
            self.add_work("save", self.save, input_queue=qr, kind=("io", "eat key value"))

        def fill_couples(self, input_queue, output_queue):
            qc, qp = output_queue
            for i in range(self.spec["n"]):
                qp[f"i{i}"] = str(i)
            for i in range(self.spec["n"] - 1):
                qc[f"c{i}"] = (f"i{i}", f"i{i+1}")

        def make_couples(self, input_queue, output_queue):
            qc, qa = input_queue
            for key, names in tuple(qc.items()):
                if all(n in qa for n in names):
                    a, b = (qa[n] for n in names)
                    exc = [x for x in (a, b) if isinstance(x, Exception)]
                    output_queue[key] = exc[0] if exc else f"{a}+{b}"
                    del qc[key]
                    for n in names:
                        if not any(n in ns for ns in qc.values()):
                            del qa[n]
            if not qc:
                for n in tuple(qa):
                    del qa[n]

        def build_split(self, spec):
            """a global work routing the items towards two branches, joined again"""
            q = self.add_queue("q fill")
            self.add_work("fill", self.fill, output_queue=q, kind="one shot")
            q0 = self.add_queue("read")
            self.add_work("read", self.f("read", "io"), input_queue=q, output_queue=q0, kind="io")
            qa = self.add_queue("even")
            qb = self.add_queue("odd")
            self.add_work("route", self.route, input_queue=q0, output_queue=(qa, qb), kind="global")
            qr = self.add_queue("res")
            self.add_work("even", self.f("even", "cpu"), input_queue=qa, output_queue=qr)
            self.add_work("odd", self.f("odd", "cpu"), input_queue=qb, output_queue=qr)
            self.add_work("save", self.save, input_queue=qr, kind=("io", "eat key value"))

        def route(self, input_queue, output_queue):
            while input_queue:
                k, v = input_queue.pop_first_item()
                output_queue[int(k[1:]) % 2][k] = v

    return Toy


def expected_results(spec):
    """Independent oracle: key -> value reaching the last work; None if it must not be"""
    n = spec["n"]
    fail = {tuple(f) for f in spec.get("fail", ())}
    out = {}
    executed = []  # multiset of (work, arg) that must be executed, each exactly once
    failures = []  # (work, key) exceptions that have to be logged

    def apply(name, v, key):
        executed.append((name, v))
        if (name, item_of(v)) in fail:
            failures.append((name, key))
            return None
        return f"{name}({v})"

    if spec["shape"] in ("linear", "nosink"):
        names = ["w0"] if spec["shape"] == "nosink" else [f"w{i}" for i in range(len(spec["kinds"]))]
        for i in range(n):
            v = str(i)
            for name in names:
                v = apply(name, v, f"k{i}")
                if v is None:
                    break
            if v is not None:
                out[f"k{i}"] = v
    elif spec["shape"] == "split":
        for i in range(n):
            v = apply("read", str(i), f"k{i}")
            if v is not None:
                v = apply("even" if i % 2 == 0 else "odd", v, f"k{i}")
            if v is not None:
                out[f"k{i}"] = v
    elif spec["shape"] == "couples":
        vals = [apply("read", str(i), f"i{i}") for i in range(n)]
        for i in range(n - 1):
            a, b = vals[i], vals[i + 1]
            if a is None or b is None:
                continue
            v = apply("cpu", f"{a}+{b}", f"c{i}")
            if v is not None:
                out[f"c{i}"] = v
    saved = {}
    if spec.get("save", True):
        for k, v in out.items():
            executed.append(("save", (k, v)))
            if ("save", item_of(v)) in fail:
                failures.append(("save", k))
            else:
                saved[k] = v
    return sorted(executed, key=repr), sorted(saved), sorted(failures), out


class RunResult:
    aborted = False
    terminal = None
    choices = ()


def exec_class(name):
    from fluidimage.executors import import_executor_class

    return import_executor_class(name)


_TOY = None
_DEVNULL = open(os.devnull, "w")


def toy_params(spec, base):
    from fluiddyn.util.paramcontainer import ParamContainer

    p = ParamContainer("params")
    p._set_attribs({"spec": repr(spec), "src": str(base / "src"), "dst": str(base / "res")})
    return p


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _DEVNULL
    so, se = sys.__stdout__, sys.__stderr__
    sys.__stdout__ = sys.__stderr__ = _DEVNULL
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e
        sys.__stdout__, sys.__stderr__ = so, se


def run_toy(spec, executor, chooser, kwargs=None, invariant=None, max_steps=20000):
    """One controlled execution; returns a RunResult with everything observable"""
    global _TOY
    if _TOY is None:
        _TOY = make_topology_class()
    kwargs = dict(kwargs or {})
    base = Path(tempfile.mkdtemp(prefix="toy"))
    (base / "src").mkdir()
    (base / "res").mkdir()
    EVENTS.clear()
    RUNNING.update(cpu=0, io=0)
    PEAK.update(cpu=0, io=0)
    r = RunResult()
    r.error = None
    holder = {}

    def observer():
        ex = holder.get("ex")
        if ex is None:
            return None
        vals = tuple(
            (k, v)
            for k, v in sorted(vars(ex).items())
            if isinstance(v, (bool, int)) and k != "time_start_str"
        )
        queues = tuple(
            (q.name, tuple((k, sched._val_fp(v)) for k, v in q.items()))
            for q in ex.topology.queues
        )
        workers = tuple(
            tuple((k, v) for k, v in sorted(vars(w).items()) if isinstance(v, (bool, int)))
            for w in getattr(ex, "workers", ())
        )
        ev = tuple(sorted(map(repr, EVENTS)))
        return vals, queues, workers, ev, tuple(sorted(RUNNING.items()))

    world = sched.World(chooser, observer, max_steps=max_steps)
    if invariant is not None:
        world.invariant = lambda: invariant(holder.get("ex"), world)
    sched.WORLD = world
    old = sys.stdout, sys.stderr
    try:
        with quiet():
            try:
                topo = _TOY(toy_params(spec, base))
                r.topology = topo
                if executor == "exec_async_seq_for_multi":
                    from time import time

                    from fluidimage.executors.exec_async_seq_for_multi import (
                        ExecutorAsyncSeqForMulti as cls,
                    )

                    (base / "res/log_0").mkdir()
                    (base / "res/job_0").mkdir()
                    kwargs.setdefault("path_log", base / "res/log_0/process_000.txt")
                    kwargs.setdefault("t_start", time())
                    kwargs.setdefault("index_process", 0)
                    kwargs.pop("nb_items_queue_max", None)
                else:
                    cls = exec_class(executor)
                ex = cls(topo, path_dir_result=topo.path_dir_result, logging_level=CFG.get('level', 'info'), **kwargs)
                holder["ex"] = r.executor = ex
                ex.compute()
            except sched.AbortRun:
                r.aborted = True
            except BaseException as err:  # noqa
                if world.aborting:
                    r.aborted = True
                elif isinstance(err, (KeyboardInterrupt, MemoryError)):
                    raise
                else:
                    r.error = err
        r.abort_reason = world.abort_reason
        r.std_restored = sys.stdout is old[0] and sys.stderr is old[1]
        r.events = list(EVENTS)
        r.trace = list(world.trace)
        r.peak = dict(PEAK)
        if not r.aborted:
            r.results = sorted(getattr(topo, "results", ()))
            r.queues = {q.name: dict(q) for q in topo.queues}
            r.exceptions_logged = sorted(
                p.name for p in (base / "res").glob("log_*/exception_*")
            )
            r.exception_texts = [
                p.name + "\n" + p.read_text() for p in (base / "res").glob("log_*/exception_*")
            ]
            r.locks = [str(p) for p in (base / "res").glob("job_*/is_running.lock")]
            r.terminal = (
                sorted(map(repr, EVENTS)),
                r.results,
                r.exceptions_logged,
                repr(r.error),
            )
    finally:
        world.shutdown()
        sched.WORLD = None
        sys.stdout, sys.stderr = old
        ex = holder.get("ex")
        if ex is not None:
            try:
                ex._log_file.close()
            except Exception:
                pass
        shutil.rmtree(base, ignore_errors=True)
    return r
