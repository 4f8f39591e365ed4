"""Real processes of the executors: forks at the worst moments and killed processes

Run in its own interpreter (python -m mc.forks '<json>') because the other explorations
replace the processes by threads.
"""
import io
import json
import os
import signal
import subprocess
import sys
import threading
import time
from pathlib import Path

TIMEOUT = 25.0


class Raw(io.RawIOBase):
    """A terminal so slow that the k-th write of the main thread lasts until another thread
    starts a process (or `delay` seconds): the lock of sys.stdout is held meanwhile"""

    def __init__(self, k, delay):
        self.k = k
        self.delay = delay
        self.pid = os.getpid()
        self.main = threading.get_ident()
        self.n = 0
        self.forked = threading.Event()
        os.register_at_fork(after_in_parent=self.after_fork)

    def after_fork(self):
        if threading.get_ident() != self.main:
            self.forked.set()

    def writable(self):
        return True

    def write(self, data):
        if os.getpid() == self.pid and threading.get_ident() == self.main:
            self.n += 1
            if self.n == self.k:
                self.forked.clear()
                self.forked.wait(self.delay)
        return len(data)


def one_run(spec, executor, nb, k, faults, path_out, delay):
    """in a forked process: the run itself"""
    from . import data, toy

    data.fast_polls()
    base = path_out.parent
    events = base / "events.txt"
    events.touch()

    def enter(work, arg, kind, fail, item):
        if kind == "cpu":
            print(f"computing {work} {arg}", flush=True)
        with open(events, "a") as f:
            f.write(repr((work, arg)) + "\n")
        how = faults.get(f"{work} {item}")
        if how == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        elif how == "exit":
            sys.exit(1)
        elif how == "os_exit":
            os._exit(0)
        elif how == "raise":
            raise toy.ToyError(f"planned failure {work} {arg}")

    toy._enter = enter
    (base / "src").mkdir()
    (base / "res").mkdir()
    raw = Raw(k, delay)
    out = sys.stdout = sys.stderr = sys.__stdout__ = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(raw), line_buffering=True)
    topo = toy.make_topology_class()(toy.toy_params(spec, base))
    exc = None
    try:
        topo.compute(executor, nb_max_workers=nb, sleep_time=0.001)
    except BaseException as err:
        exc = repr(err)
    info = dict(
        exc=exc,
        results=sorted(topo.results),
        queues=sum(len(q) for q in topo.queues),
        logged=sorted(p.name for p in (base / "res").glob("log_*/**/exception_*")),
        events=sorted(events.read_text().splitlines()),
        locks=len(list((base / "res").glob("job_*/is_running.lock"))),
        restored=sys.stdout is out,
        writes=raw.n,
    )
    path_out.write_text(json.dumps(info))


def run(spec, executor, nb, k, faults, delay=0.3):
    from .common import tmpdir

    with tmpdir() as d:
        out = Path(d) / "out.json"
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                one_run(spec, executor, nb, k, faults, out, delay)
                code = 0
            except BaseException as err:
                os.write(2, repr(err).encode())
            finally:
                os._exit(code)
        t_end = time.monotonic() + TIMEOUT
        while time.monotonic() < t_end:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.01)
        else:
            status = None
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if status is None:
            os.waitpid(pid, 0)
            return None
        return json.loads(out.read_text()) if out.exists() else {"exc": f"main process ended with status {status}"}


def expected(spec, faults):
    from . import toy

    fail = []
    for f in faults:
        w, item = f.split(" ")
        fail.append((w, item))
    executed, saved, failures, _ = toy.expected_results(dict(spec, fail=fail))
    return executed, saved, failures


def problems(spec, executor, nb, k, faults):
    what = f"{executor} {spec} workers {nb}" + (f", write {k} of the main thread lasting until a process is started" if k else "") + (f", {faults}" if faults else "")
    got = run(spec, executor, nb, k, faults)
    if got is None:
        return [(f"{what}: not finished after {TIMEOUT} s", "hang")], 0
    out = []
    executed, saved, failures = expected(spec, faults)
    if got["exc"]:
        out.append((f"{what}: {got['exc']}", "error"))
        return out, 0
    if got["results"] != saved:
        out.append((f"{what}: results {got['results']} instead of {saved}", "results"))
    if got["events"] != sorted(map(repr, executed)):
        out.append((f"{what}: executed {got['events']} instead of {executed}", "executed"))
    if got["queues"] or got["locks"] or not got["restored"]:
        out.append((f"{what}: {got}", "end"))
    if len(got["logged"]) != len(failures):
        out.append((f"{what}: errors logged {got['logged']} instead of {failures}", "logged"))
    return out, got["writes"]


def main():
    from .common import preload

    preload()
    case = json.loads(sys.argv[1])
    spec, executor, nb = case["spec"], case["executor"], case["nb"]
    found, nb_runs, k = [], 0, 0
    if case["what"] == "fork":
        writes = 1
        while k <= writes and len(found) < 3:
            p, n = problems(spec, executor, nb, k, {})
            writes = max(writes, n)
            found += p
            nb_runs += 1
            k += 1
    else:
        for faults in case["faults"]:
            p, _ = problems(spec, executor, nb, 0, faults)
            found += p
            nb_runs += 1
            if len(found) >= 3:
                break
    print("RESULT" + json.dumps([found, nb_runs]))


def check_case(rec, case):
    """called by the checks"""
    p = subprocess.run([sys.executable, "-m", "mc.forks", json.dumps(case)], capture_output=True, text=True)
    lines = [li for li in p.stdout.splitlines() if li.startswith("RESULT")]
    if not lines:
        raise RuntimeError(f"mc.forks: {p.stderr[-1000:]}")
    found, n = json.loads(lines[0][6:])
    for detail, key in found:
        rec.violation(detail, "process-" + key)
    rec.count("real_process_executions", n)
    rec.nontrivial(json.dumps(case)) if hasattr(rec, "nontrivial") else None
    rec.sample(case)


if __name__ == "__main__":
    main()
