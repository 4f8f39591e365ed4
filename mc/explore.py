"""Exploration of all the schedules of the real works of a topology.

The executor is replaced by a non deterministic one, which respects the contract of
:class:`fluidimage.topologies.base.Work`: at any time any (non global) work with a non
empty input queue can take the first item of its queue, any item taken can be finished
(its value goes in the output queue) and any global work can be called.  One shot works
are executed at the beginning.  All the schedules are explored (states = content of the
queues + items being processed + results, merged when equal)."""

import copy
import hashlib

import numpy as np

from .common import Violation, quiet


def digest(obj, depth=0):
    if obj is None or isinstance(obj, (str, int, float, bool, complex, bytes)):
        return repr(obj)
    if isinstance(obj, np.generic):
        return repr(obj)
    if isinstance(obj, np.ndarray):
        return f"A{obj.shape}{obj.dtype}" + hashlib.md5(np.ascontiguousarray(obj).tobytes()).hexdigest()
    if isinstance(obj, BaseException):
        return f"E{type(obj).__name__}"
    if isinstance(obj, dict):
        return "{" + ",".join(f"{digest(k, depth + 1)}:{digest(v, depth + 1)}" for k, v in obj.items()) + "}"
    if isinstance(obj, (tuple, list, set)):
        return "(" + ",".join(digest(v, depth + 1) for v in obj) + ")"
    if hasattr(obj, "mc_digest"):
        return obj.mc_digest()
    if hasattr(obj, "__fspath__"):
        return str(obj)
    if depth > 4 or not hasattr(obj, "__dict__"):
        return type(obj).__name__
    items = []
    for k in sorted(obj.__dict__):
        v = obj.__dict__[k]
        if k in ("serie", "series", "params") or callable(v):
            continue
        items.append(f"{k}={digest(v, depth + 1)}")
    return type(obj).__name__ + "[" + ",".join(items) + "]"


def _deepcopy_queue(self, memo):
    new = type(self).__new__(type(self))
    memo[id(self)] = new
    for k, v in self.__dict__.items():
        new.__dict__[k] = copy.deepcopy(v, memo)
    for k, v in self.items():
        new[k] = copy.deepcopy(v, memo)
    return new


def is_kind(work, kind):
    k = work.kind
    if k is None:
        return False
    if isinstance(k, str):
        return kind in k
    return any(kind in s for s in k)


class State:
    """a topology + the items being processed"""

    def __init__(self, topology):
        self.t = topology
        self.inflight = []  # (index of work, key, value)

    def key(self, observe):
        h = hashlib.md5()
        for q in self.t.queues:
            if isinstance(q, dict):
                h.update(digest(dict(q)).encode())
            else:
                h.update(digest(list(q)).encode())
            h.update(b"|")
        h.update(digest(sorted((i, str(k), digest(v)) for i, k, v in self.inflight)).encode())
        h.update(digest(observe(self.t)).encode())
        return h.digest()


class Explorer:
    def __init__(self, topology, observe, max_inflight=2, max_states=200000, hook=None,
                 atomic=False):
        """observe(topology) -> value characterizing what has been produced so far;
        hook(topology, inflight works): called before each action"""
        self.observe = observe
        self.max_inflight = max_inflight
        self.max_states = max_states
        self.hook = hook
        self.atomic = atomic
        for q in topology.queues:
            if isinstance(q, dict) and not hasattr(type(q), "__deepcopy__"):
                type(q).__deepcopy__ = _deepcopy_queue
        self.states = 0
        self.transitions = 0
        self.terminals = []
        self.complete = True
        for work in topology.works:
            if is_kind(work, "one shot"):
                work.func_or_cls(work.input_queue, work.output_queue)
        self.init = State(topology)
        self.indices = [
            i for i, w in enumerate(topology.works) if not is_kind(w, "one shot")
        ]

    def actions(self, state):
        out = []
        for i in self.indices:
            work = state.t.works[i]
            if is_kind(work, "global"):
                out.append(("call", i, None))
            elif work.input_queue and len(state.inflight) < self.max_inflight:
                out.append(("start", i, None))
        for n in range(len(state.inflight)):
            out.append(("finish", state.inflight[n][0], n))
        return out

    def apply(self, state, action):
        kind, i, n = action
        if self.hook is not None:
            self.hook(state)
        work = state.t.works[i]
        if kind == "call":
            work.func_or_cls(work.input_queue, work.output_queue)
            return f"call {work.name}"
        if kind == "start":
            key, obj = work.input_queue.pop_first_item()
            if work.check_exception(key, obj):
                return f"skip {work.name} {key}"
            state.inflight.append((i, key, obj))
            if self.atomic:
                return self.apply(state, ("finish", i, len(state.inflight) - 1))
            return f"start {work.name} {key}"
        _, key, obj = state.inflight.pop(n)
        if self.hook is not None:
            self.hook(state)
        try:
            ret = work.func_or_cls(work.prepare_argument(key, obj))
        except Exception as err:
            ret = err
        if work.output_queue is not None:
            work.output_queue[key] = ret
        return f"finish {work.name} {key}"

    def run(self, check_terminal, check_state=None):
        with quiet():
            self._run(check_terminal, check_state)

    def _run(self, check_terminal, check_state):
        seen = {self.init.key(self.observe)}
        stack = [(self.init, ())]
        while stack:
            state, path = stack.pop()
            self.states += 1
            if self.states > self.max_states:
                self.complete = False
                return
            try:
                if check_state is not None:
                    check_state(state)
                actions = self.actions(state)
                progress = False
                key0 = state.key(self.observe)
                for action in actions:
                    new = copy.deepcopy(state)
                    text = self.apply(new, action)
                    self.transitions += 1
                    k = new.key(self.observe)
                    if k != key0:
                        progress = True
                    if k not in seen:
                        seen.add(k)
                        stack.append((new, path + (text,)))
                if not progress:
                    self.terminals.append(k)
                    check_terminal(state)
            except Violation as v:
                raise Violation(f"{v.detail}\nschedule: {list(path)}", v.key) from None
            except Exception as err:
                raise Violation(
                    f"{type(err).__name__}: {err}\nschedule: {list(path)}", f"exc:{type(err).__name__}"
                ) from err
