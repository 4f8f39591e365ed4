"""Controlled interleaving of Python threads at the granularity of source lines

Each function runs in its own thread; only the thread holding the baton runs. The lines of the
files of the package under test are the scheduling points (sys.settrace). A schedule is a list of
segments (thread, number of scheduling points or None for "until its end"); afterwards the
remaining threads are run one after the other. A thread blocked by another one (lock) loses the
baton after `block_timeout`."""

import sys
import threading
import time


class Stuck(Exception):
    pass


class LineRun:
    def __init__(self, funcs, segments, match="/fluidimage/", block_timeout=0.25, timeout=60, cap=10**9):
        self.funcs = funcs
        self.n = len(funcs)
        self.segments = list(segments)
        self.match = match
        self.block_timeout = block_timeout
        self.timeout = timeout
        self.cap = cap
        self.cond = threading.Condition()
        self.owner = None
        self.left = None  # points before the end of the segment of the owner
        self.beat = 0  # progress counter of the owner
        self.idents = [None] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.points = [0] * self.n
        self.trace_log = [[] for _ in range(self.n)]
        self.preempted = 0
        self.blocked = 0
        self.record = False

    # called by the threads
    def _point(self, i, frame):
        with self.cond:
            if self.record:
                self.trace_log[i].append((frame.f_code.co_filename, frame.f_lineno))
            while self.owner != i:
                self.cond.wait()
            self.beat += 1
            self.points[i] += 1
            if self.left is not None:
                if self.left == 0:
                    self.owner = None
                    self.preempted += 1
                    self.cond.notify_all()
                    while self.owner != i:
                        self.cond.wait()
                    self.beat += 1
                if self.left is not None:
                    self.left -= 1
            if self._is_free(i):
                # no need to stop this thread any more
                sys.settrace(None)

    def _is_free(self, i):
        return self.left is None and not self.record and all(j != i or k is None for j, k in self.segments)

    def _body(self, i):
        cap = self.cap

        def make_local():
            # (the first `cap` lines executed in a frame: the numerical kernels are then atomic)
            left = cap

            def local(frame, event, arg):
                nonlocal left
                if event == "line":
                    left -= 1
                    if left < 0:
                        return None
                    self._point(i, frame)
                return local

            return local

        def glob(frame, event, arg):
            if self.match in frame.f_code.co_filename:
                return make_local()
            return None

        with self.cond:
            while self.owner != i:
                self.cond.wait()
            self.idents[i] = threading.get_ident()
            free = self._is_free(i)
        try:
            if not free:
                sys.settrace(glob)
            self.results[i] = ("ok", self.funcs[i]())
        except BaseException as err:
            self.results[i] = ("exc", err)
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[i] = True
                if self.owner == i:
                    self.owner = None
                self.cond.notify_all()

    def _progress(self, i):
        """something which changes when the thread executes something"""
        frame = sys._current_frames().get(self.idents[i]) if self.idents[i] else None
        return self.beat, id(frame), frame.f_lasti if frame is not None else None

    def run(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        deadline = time.time() + self.timeout
        plan = self.segments
        blocked = set()
        last = None
        while not all(self.done):
            with self.cond:
                if plan:
                    i, k = plan.pop(0)
                    if self.done[i]:
                        continue
                else:
                    cand = [j for j in range(self.n) if not self.done[j] and j not in blocked]
                    if not cand:
                        blocked.clear()
                        cand = [j for j in range(self.n) if not self.done[j]]
                    # (not the thread which has just been preempted)
                    i, k = min(cand, key=lambda j: (j == last, j)), None
                self.owner, self.left = i, k
                last = i
                self.cond.notify_all()
                beat, t0 = self._progress(i), time.time()
                while self.owner == i:
                    self.cond.wait(0.05)
                    if self.owner != i:
                        break
                    now = time.time()
                    new = self._progress(i)
                    if new != beat:
                        beat, t0 = new, now
                    elif now - t0 > self.block_timeout:
                        # blocked by another thread (or slow)
                        self.blocked += 1
                        blocked.add(i)
                        self.owner = None
                        break
                    if now > deadline:
                        raise Stuck(f"threads {[j for j in range(self.n) if not self.done[j]]} do not end")
            if time.time() > deadline:
                raise Stuck(f"threads {[j for j in range(self.n) if not self.done[j]]} do not end")
        for t in threads:
            t.join()
        return self.results


def profile(func, match="/fluidimage/", cap=10**9):
    """the scheduling points (file, line) of a function run alone"""
    run = LineRun([func], [], match, cap=cap)
    run.record = True
    run.run()
    if run.results[0][0] == "exc":
        raise run.results[0][1]
    return run.trace_log[0]


def points_of_interest(trace, occurrences=1):
    """indices of the first occurrences of each line (before which to preempt)"""
    seen = {}
    out = []
    for k, loc in enumerate(trace):
        seen[loc] = seen.get(loc, 0) + 1
        if seen[loc] <= occurrences:
            out.append(k)
    return out
