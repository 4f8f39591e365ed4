"""Controlled world: run the real executors under an explicit scheduler.

Everything that can interleave in the executors is turned into an explicit *action*:

- the start of a task spawned in a trio nursery, and every wake-up from `trio.sleep`;
- the start of a worker thread (`trio.to_thread.run_sync`), every blocking point inside
  it (pipe receive, event wait) and the delivery of its result to the trio loop;
- the start of a `multiprocessing.Process`, which runs as a controlled thread (with its
  own controlled trio loop if it creates one).

Exactly one OS thread runs at any time.  When it cannot go on, it picks the next action
(the choice is made by a `Chooser`) and hands the baton to the thread owning it.
An execution is therefore a deterministic function of the sequence of choices.
"""

import collections
import os
import queue as _queue
import signal
import sys
import threading
import time as _time
import types

import outcome
import trio
import trio.lowlevel
import trio.testing

_RealThread = threading.Thread
_real_run = trio.run
_real_sleep = trio.sleep
_real_run_sync = trio.to_thread.run_sync
_real_start_soon = trio.Nursery.start_soon
_real_signal = signal.signal

WORLD = None


class AbortRun(BaseException):
    """Unwinds the controlled threads and tasks when an execution is over."""


class Deadlock(Exception):
    """No action is enabled but the computation is not finished"""


class TooLong(Exception):
    pass


class Action:
    __slots__ = ("label", "owner", "enabled", "fire", "seq", "fp", "dead", "group",
                 "bypassed", "task")

    def __init__(self, label, owner, fire, enabled=None, fp=None, group=None):
        self.label = label
        self.owner = owner
        self.fire = fire
        self.enabled = enabled
        self.fp = fp
        self.dead = False
        self.group = group
        self.bypassed = None  # set for the start of a spawned task
        self.task = None  # set for the wake-up of a sleeping task


class CThread:
    """A controlled OS thread (the main one included)"""

    def __init__(self, name, group=None):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.inbox = None
        self.alive = True
        self.loop_depth = 0
        self.group = group


class World:
    def __init__(self, chooser, observer=None, max_steps=20000):
        self.chooser = chooser
        self.observer = observer  # callable returning a hashable: extra state
        self.actions = []
        self.seq = 0
        self.steps = 0
        self.max_steps = max_steps
        self.main = CThread("main")
        self.local = threading.local()
        self.local.cthread = self.main
        self.aborting = False
        self.abort_reason = None
        self.threads = [self.main]
        self.trace = []
        self.processes = []
        self.objids = {}
        self.pipes = []
        self.events = []
        self.invariant = None
        self.over = False

    # ------------------------------------------------------------------ utilities
    @property
    def me(self):
        return getattr(self.local, "cthread", None)

    def objid(self, obj):
        return self.objids.setdefault(id(obj), (len(self.objids), obj))[0]

    def add_action(self, label, fire, enabled=None, fp=None, owner=None):
        owner = owner or self.me
        act = Action(label, owner, fire, enabled, fp, owner.group)
        act.seq = self.seq
        self.seq += 1
        self.actions.append(act)
        return act

    def enabled_actions(self):
        """Actions that can be fired now.

        - Two interchangeable spawned tasks count for one action.
        - trio runs a spawned task in its very next batch: a pending start can be
          overtaken at most once by each sleeping task of the same loop.
        """
        out = []
        seen = set()
        blocked = set()
        for a in self.actions:
            if a.bypassed:
                blocked |= a.bypassed
        for a in self.actions:
            if a.task is not None and (a.owner, a.task) in blocked:
                continue
            if a.enabled is None or a.enabled():
                if a.bypassed is not None:
                    key = (a.label, a.owner, frozenset(a.bypassed))
                    if key in seen:
                        continue
                    seen.add(key)
                out.append(a)
        # default order: spawned tasks first (as in trio), then first in first out
        out.sort(key=lambda a: a.bypassed is None)
        return out

    # ------------------------------------------------------------------ scheduling
    def pick(self):
        """Choose the next action; return it (already removed from the set)"""
        if self.aborting:
            raise AbortRun
        self.steps += 1
        if self.invariant is not None:
            self.invariant()
        acts = self.enabled_actions()
        if not acts:
            self.abort(Deadlock(f"nothing can run: {[a.label for a in self.actions]}"))
            raise AbortRun
        if self.steps > self.max_steps:
            self.abort(TooLong(f"more than {self.max_steps} steps"))
            raise AbortRun
        i = self.chooser.choose(self, acts)
        if i is None:
            self.abort(None)
            raise AbortRun
        act = acts[i]
        self.actions.remove(act)
        if act.task is not None:
            for a in self.actions:
                if a.bypassed is not None and a.owner is act.owner:
                    a.bypassed.add((act.owner, act.task))
        self.trace.append(act.label)
        return act

    def abort(self, reason):
        if not self.aborting:
            self.aborting = True
            self.abort_reason = reason
            if self.me is not self.main:
                # wake up the main thread so that it unwinds
                self.main.inbox = None
                self.main.sem.release()

    def _wait_inbox(self, th):
        th.sem.acquire()
        act, th.inbox = th.inbox, None
        return act

    def switch(self):
        """Called by the running thread when it is blocked.

        Returns an action owned by this thread."""
        me = self.me
        act = self.pick()
        if act.owner is me:
            return act
        act.owner.inbox = act
        act.owner.sem.release()
        act = self._wait_inbox(me)
        if self.aborting or act is None:
            raise AbortRun
        return act

    def park(self, label, enabled=None, fp=None):
        """Blocking point of a plain controlled thread"""
        me = self.me
        if me is None:
            return
        if self.aborting:
            raise AbortRun
        token = self.add_action(label, None, enabled, fp)
        act = self.switch()
        assert act is token, (act.label, label)

    # ------------------------------------------------------------------ threads
    def spawn_thread(self, name, func, group=None, label=None, fp=None):
        th = CThread(name, group=group or (self.me.group if self.me else None))
        self.threads.append(th)
        th.result = None
        th.done = False

        def runner():
            self.local.cthread = th
            act = self._wait_inbox(th)
            try:
                if self.aborting or act is None:
                    return
                try:
                    th.result = outcome.Value(func())
                except AbortRun:
                    self.abort(self.abort_reason)
                    return
                except BaseException as err:  # noqa
                    th.result = outcome.Error(err)
            finally:
                th.done = True
                th.alive = False
            self.thread_exit()

        os_thread = _RealThread(target=runner, daemon=True, name=name)
        th.os_thread = os_thread
        os_thread.start()
        th.start_action = self.add_action(label or f"run {name}", None, None, fp, owner=th)
        return th

    def thread_exit(self):
        """The running thread is finished: hand over the baton for ever"""
        try:
            act = self.pick()
        except AbortRun:
            return
        act.owner.inbox = act
        act.owner.sem.release()

    def kill_group(self, group):
        for a in list(self.actions):
            if a.group == group:
                self.actions.remove(a)

    def shutdown(self):
        """Main thread: end of the execution, unwind every other thread"""
        self.abort(self.abort_reason)
        self.over = True
        for th in self.threads:
            if th is self.main or not th.alive:
                continue
            th.inbox = None
            th.sem.release()
            th.os_thread.join(10)

    # ------------------------------------------------------------------ state
    def fingerprint(self):
        parts = []
        for a in self.actions:
            fp = a.fp() if callable(a.fp) else a.fp
            en = True if a.enabled is None else bool(a.enabled())
            by = None
            if a.bypassed is not None:
                by = sorted(t.name for _, t in a.bypassed)
            parts.append((a.label, en, fp, by))
        parts.sort(key=repr)
        pipes = tuple(p.fp() for p in self.pipes if p.buf)
        extra = self.observer() if self.observer is not None else None
        return (tuple(parts), pipes, extra)


def _val_fp(v, depth=0):
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if isinstance(v, (list, tuple)) and depth < 3:
        return tuple(_val_fp(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 3:
        return tuple((_val_fp(k, depth + 1), _val_fp(x, depth + 1)) for k, x in v.items())
    if isinstance(v, Exception):
        return ("E", type(v).__name__, str(v)[:40])
    if isinstance(v, float):
        return "f"
    if hasattr(v, "name") and isinstance(getattr(v, "name", None), str):
        return ("N", v.name)
    return ("O", type(v).__name__)


def coro_fp(coro):
    out = []
    depth = 0
    while coro is not None and depth < 30:
        frame = getattr(coro, "cr_frame", None)
        if frame is None:
            frame = getattr(coro, "gi_frame", None)
        if frame is None:
            break
        fname = frame.f_code.co_filename
        if "/trio/" not in fname and "/mc/sched" not in fname:
            loc = tuple(
                (k, _val_fp(v))
                for k, v in sorted(frame.f_locals.items())
                if k not in ("self", "t_start") and not isinstance(v, float)
            )
            out.append((frame.f_code.co_name, frame.f_lasti, loc))
        coro = getattr(coro, "cr_await", None) or getattr(coro, "gi_yieldfrom", None)
        depth += 1
    return tuple(out)


# ---------------------------------------------------------------------- trio patches


async def _task_park(label, enabled=None, fp=None, cancellable=True, kind=None):
    """Park the current trio task until the scheduler fires it"""
    w = WORLD
    task = trio.lowlevel.current_task()
    name = getattr(task.context, "x", None)
    del name

    def fire():
        trio.lowlevel.reschedule(task, outcome.Value(None))

    act = w.add_action(label, fire, enabled, fp or (lambda: coro_fp(task.coro)))
    act.dead = not cancellable
    if kind == "start":
        act.bypassed = set()
    elif kind == "wake":
        act.task = task

    def abort_fn(raise_cancel):
        if not cancellable and not w.aborting:
            return trio.lowlevel.Abort.FAILED
        if act in w.actions:
            w.actions.remove(act)
        return trio.lowlevel.Abort.SUCCEEDED

    await trio.lowlevel.wait_task_rescheduled(abort_fn)
    if w.aborting:
        raise AbortRun


def _controlled():
    return WORLD is not None and WORLD.me is not None and not WORLD.over


async def _sleep(seconds):
    if not _controlled():
        return await _real_sleep(seconds)
    task = trio.lowlevel.current_task()
    await _task_park(f"{WORLD.me.name}:wake {task.name}", kind="wake")


def _start_soon(self, async_fn, *args, name=None):
    if not _controlled():
        return _real_start_soon(self, async_fn, *args, name=name)

    label = getattr(async_fn, "__name__", "task")
    w_ = (getattr(async_fn, "__defaults__", None) or (None,))[0]
    if isinstance(getattr(w_, "name", None), str):
        label += f" {w_.name}"
    for a in args:
        n = getattr(a, "name", None)
        if isinstance(n, str):
            label += f" {n}"

    async def gated(*args_):
        await _task_park(f"{WORLD.me.name}:start {label}", kind="start")
        return await async_fn(*args_)

    return _real_start_soon(self, gated, *args, name=label)


async def _run_sync(sync_fn, *args, **kwargs):
    if not _controlled():
        kwargs.pop("thread_name", None)
        return await _real_run_sync(sync_fn, *args, **kwargs)
    w = WORLD
    fname = getattr(sync_fn, "__name__", "fn")
    extra = "".join(
        f" {_val_fp(a)}" for a in args if isinstance(a, (str, int, tuple))
    )[:80]
    th = w.spawn_thread(
        f"thr-{fname}",
        lambda: sync_fn(*args),
        label=f"{w.me.name}:run {fname}{extra}",
    )
    await _task_park(f"{w.me.name}:deliver {fname}{extra}", enabled=lambda: th.done, cancellable=False)
    return th.result.unwrap()


def _run(async_fn, *args, **kwargs):
    if not _controlled():
        return _real_run(async_fn, *args, **kwargs)
    w = WORLD
    me = w.me

    async def controller():
        while True:
            await trio.testing.wait_all_tasks_blocked()
            try:
                act = w.switch()
            except AbortRun:
                main_scope.cancel()
                for a in list(w.actions):
                    if a.owner is me and a.dead and a.fire is not None:
                        w.actions.remove(a)
                        a.fire()
                await trio.sleep_forever()
            act.fire()

    main_scope = trio.CancelScope()
    result = []

    async def main():
        trio.lowlevel.spawn_system_task(controller)
        with main_scope:
            result.append(await async_fn(*args))

    try:
        _real_run(main)
    except BaseException:
        if w.aborting:
            raise AbortRun from None
        raise
    if w.aborting:
        raise AbortRun
    return result[0] if result else None


def _signal(signum, handler):
    if threading.current_thread() is not threading.main_thread():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("fluidimage"):
            return None
    return _real_signal(signum, handler)


# ------------------------------------------------------------------ multiprocessing


class FakeConn:
    def __init__(self):
        self.buf = collections.deque()
        self.peer = None
        self.closed_by = set()

    @property
    def closed(self):
        """no process can write any more (each process has its own copy of a pipe)"""
        if not self.closed_by:
            return False
        holders = [p for p in WORLD.processes if any(a is self for a in p.args)]
        if not holders:
            return False
        others = self.closed_by - {p.th.group for p in holders if p.th}
        return bool(others) and all(p.th is not None and (p.th.group in self.closed_by or not p.is_alive()) for p in holders)

    def send(self, obj):
        self.peer.buf.append(obj)

    def recv(self):
        w = WORLD
        w.park(f"{w.me.name}:recv", enabled=lambda: bool(self.buf) or self.peer.closed)
        if not self.buf:
            raise EOFError
        return self.buf.popleft()

    def poll(self, timeout=0.0):
        w = WORLD
        if timeout is None:
            w.park(f"{w.me.name}:poll", enabled=lambda: bool(self.buf))
        elif timeout:
            w.park(f"{w.me.name}:poll-t")
        return bool(self.buf)

    def close(self):
        self.closed_by.add(WORLD.me.group)

    def fileno(self):
        return -1

    def fp(self):
        return tuple(_val_fp(o) for o in self.buf)


def FakePipe(duplex=True):
    a, b = FakeConn(), FakeConn()
    a.peer, b.peer = b, a
    if WORLD is not None:
        WORLD.pipes += [a, b]
    return a, b


class FakeEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        w = WORLD
        if self.flag:
            return True
        w.park(f"{w.me.name}:event-wait", enabled=lambda: self.flag)
        return self.flag


class FakeProcess:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = kwargs or {}
        self.daemon = daemon
        self.th = None
        self.terminated = False
        self.name = name or "proc"

    @property
    def pid(self):
        return 4242

    @property
    def sentinel(self):
        return -1

    def run(self):
        self.target(*self.args, **self.kwargs)

    def start(self):
        w = WORLD
        n = len(w.processes)
        w.processes.append(self)
        self.name = f"proc{n}"
        self.th = w.spawn_thread(
            self.name, self.run, group=f"proc{n}", label=f"start proc{n}"
        )

    def is_alive(self):
        return self.th is not None and not self.th.done and not self.terminated

    @property
    def exitcode(self):
        if self.th is None or (not self.th.done and not self.terminated):
            return None
        if self.terminated:
            return -15
        return 0 if isinstance(self.th.result, outcome.Value) else 1

    def join(self, timeout=None):
        w = WORLD
        if timeout is None:
            w.park(f"{w.me.name}:join", enabled=lambda: not self.is_alive())
        else:
            w.park(f"{w.me.name}:join", enabled=lambda: not self.is_alive())

    def terminate(self):
        if self.is_alive():
            self.terminated = True
            WORLD.kill_group(self.th.group)

    kill = terminate

    def close(self):
        pass


def install(multiproc=True):
    """Patch trio (and multiprocessing): call before importing fluidimage.executors"""
    trio.sleep = _sleep
    trio.run = _run
    trio.to_thread.run_sync = _run_sync
    trio.Nursery.start_soon = _start_soon
    trio._core._run._ALLOW_DETERMINISTIC_SCHEDULING = True

    class _R:
        def shuffle(self, batch):
            batch.reverse()

        def random(self):
            return 0.9

        def uniform(self, a, b):
            return a

    trio._core._run._r = _R()
    signal.signal = _signal
    if multiproc:
        import multiprocessing

        multiprocessing.Process = FakeProcess
        multiprocessing.Pipe = FakePipe
        multiprocessing.Event = FakeEvent
        # "threading" servers
        class ThreadAsProcess(FakeProcess):
            def terminate(self):
                raise AttributeError

        ThreadAsProcess.terminate = property(
            lambda self: (_ for _ in ()).throw(AttributeError("terminate"))
        )
        globals()["ThreadAsProcess"] = ThreadAsProcess


# ------------------------------------------------------------------ exploration


class Chooser:
    """Replay a prefix of choices then follow a default policy, recording everything"""

    def __init__(self, prefix, explorer=None):
        self.prefix = prefix
        self.n = 0
        self.explorer = explorer
        self.taken = []

    def choose(self, world, acts):
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(acts):
                raise RuntimeError("replay divergence")
            self.taken.append(c)
            if self.explorer is not None and i == len(self.prefix) - 1:
                self.explorer.last_prefix_done = True
            return c
        c = self.explorer.decide(world, acts, self.taken)
        if c is not None:
            self.taken.append(c)
        return c


class Explorer:
    """Explicit-state exploration of all schedules, by re-execution.

    execute(chooser) must run one execution under a World using that chooser and return
    an object with attributes `aborted` (bool) and `terminal` (hashable outcome).
    A state already visited prunes the execution.  The graph of states is recorded to
    check that the end can be reached from every state (no livelock).
    """

    def __init__(self, execute, max_states=10**9, max_wall=10**9, max_runs=10**9):
        self.execute = execute
        self.max_states = max_states
        self.max_wall = max_wall
        self.max_runs = max_runs
        self.ids = {}
        self.succ = {}  # state -> {choice: state}
        self.nact = {}
        self.terminal = {}
        self.pending = []  # (prefix, state, choice)
        self.transitions = 0
        self.runs = 0
        self.complete = True
        self.noop = set()
        self.max_depth = 0
        self._cur = None

    def _state(self, fp):
        s = self.ids.get(fp)
        if s is None:
            s = self.ids[fp] = len(self.ids)
        return s

    def _enter(self, world, acts, taken):
        """Arrive in a state after some transition; returns (state, is_new)"""
        extra = hash(repr(world.observer())) if world.observer is not None else 0
        fp = hash(repr(world.fingerprint()))
        known = fp in self.ids
        s = self._state(fp)
        if self._cur is not None:
            ps, pc, key = self._cur
            if pc not in self.succ.setdefault(ps, {}):
                self.succ[ps][pc] = s
                self.transitions += 1
            if s == ps and key is not None:
                self.noop.add(key)
        first = 0
        if not known:
            self.nact[s] = len(acts)
            pre = tuple(taken)
            todo = []
            for c, act in enumerate(acts):
                key = None
                if act.task is not None:
                    # a poll of a sleeping task depends only on its own frame and on
                    # the shared data: when it is known to change nothing, it is a
                    # self-loop in this state too
                    key = (act.task.name, hash(repr(act.fp())), extra)
                    if key in self.noop:
                        self.succ.setdefault(s, {})[c] = s
                        self.transitions += 1
                        continue
                todo.append((c, key))
            if not todo:
                todo = [(0, None)]
            self._first = todo[0]
            for c, key in reversed(todo[1:]):
                self.pending.append((pre + (c,), s, c, key))
        return s, not known

    def decide(self, world, acts, taken):
        s, new = self._enter(world, acts, taken)
        self.max_depth = max(self.max_depth, len(taken))
        if not new:
            self._cur = None
            return None
        c, key = self._first
        self._cur = (s, c, key)
        return c

    def run(self):
        """Yields the result of every execution"""
        t0 = _time.time()
        self._cur = None
        yield self._one(())
        while self.pending:
            if (
                len(self.ids) > self.max_states
                or _time.time() - t0 > self.max_wall
                or self.runs > self.max_runs
            ):
                self.complete = False
                break
            prefix, s, c, key = self.pending.pop()
            if key is not None and key in self.noop:
                self.succ.setdefault(s, {})[c] = s
                self.transitions += 1
                continue
            self._cur = (s, c, key)
            yield self._one(prefix)

    def _one(self, prefix):
        self.runs += 1
        chooser = Chooser(prefix, self)
        res = self.execute(chooser)
        res.choices = tuple(chooser.taken)
        if not res.aborted and self._cur is not None:
            # terminal node
            ps, pc, _ = self._cur
            key = ("T", repr(res.terminal))
            s = self._state(key)
            self.terminal[s] = res.choices
            if pc not in self.succ.setdefault(ps, {}):
                self.succ[ps][pc] = s
                self.transitions += 1
        return res

    def stuck_states(self):
        """States from which no terminal state is reachable (only if complete)"""
        if not self.complete:
            return []
        pred = collections.defaultdict(list)
        for s, d in self.succ.items():
            for t in d.values():
                pred[t].append(s)
        ok = set(self.terminal)
        todo = list(ok)
        while todo:
            t = todo.pop()
            for s in pred[t]:
                if s not in ok:
                    ok.add(s)
                    todo.append(s)
        return [s for s in self.ids.values() if s not in ok]

    def path_to(self, state):
        """Choices leading to a state (BFS on the recorded graph)"""
        prev = {0: None}
        todo = collections.deque([0])
        while todo:
            s = todo.popleft()
            if s == state:
                break
            for c, t in self.succ.get(s, {}).items():
                if t not in prev:
                    prev[t] = (s, c)
                    todo.append(t)
        if state not in prev:
            return None
        out = []
        s = state
        while prev[s] is not None:
            s, c = prev[s]
            out.append(c)
        return tuple(reversed(out))


class DevExplorer(Explorer):
    """Schedules with at most `bound` deviations from the default FIFO schedule.

    (delay-bounded exploration; used where the full state graph is too large)"""

    def __init__(self, execute, bound, **kw):
        super().__init__(execute, **kw)
        self.bound = bound
        self.best = {}

    def decide(self, world, acts, taken):
        # default: oldest action first (FIFO) -> fair
        self.max_depth = max(self.max_depth, len(taken))
        # the default continuation depends on the order of the actions
        fp = hash((repr(world.fingerprint()), tuple(a.label for a in acts)))
        self.ids.setdefault(fp, len(self.ids))
        self.transitions += 1
        used = self._dev
        left = self.bound - used
        if self.best.get(fp, -1) >= left:
            return None
        self.best[fp] = left
        if left > 0:
            pre = tuple(taken)
            for c in range(len(acts) - 1, 0, -1):
                self.pending.append((pre + (c,), used + 1, c))
        return 0

    def run(self):
        t0 = _time.time()
        self._dev = 0
        self._cur = None
        yield self._one(())
        while self.pending:
            if _time.time() - t0 > self.max_wall or self.runs > self.max_runs:
                self.complete = False
                break
            prefix, dev, c = self.pending.pop()
            self._dev = dev
            yield self._one(prefix)

    def _one(self, prefix):
        self.runs += 1
        self.transitions += 1
        chooser = Chooser(prefix, self)
        res = self.execute(chooser)
        res.choices = tuple(chooser.taken)
        return res


class Replayer:
    """Follow recorded choices, then the first enabled action"""

    def decide(self, world, acts, taken):
        return 0
