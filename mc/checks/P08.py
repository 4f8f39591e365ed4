"""P08: interruption at any file system operation, then complete"""
import ctypes
import json
import os
import signal
import subprocess
import sys
import time
from pathlib import Path

from mc import data
from mc.common import SCRATCH, Violation, check, quiet, tmpdir

data.fast_polls()

LEVEL = "fault_enumeration"
RULE = (
    "For each configuration (topology, executor, mode of saving, existing results), a computation is run once per file system "
    "operation made below its result directory and per fault: process ended before the operation, "
    "process ended after half of the write, operation failing with ENOSPC (once, or always from there). Every fault point is enumerated. "
    "Non trivial: the fault was reached and the following computation had something to compute."
)
ASSUMPTIONS = [
    "a crash keeps everything already written by the process (no loss of the operating system caches)",
    "the numbering of the operations is the one of each run: for executors using threads, it can vary between runs",
]

MODES = {0: "crash before", 1: "crash in the middle of", 2: "ENOSPC once at", 3: "ENOSPC from"}
MARK = b"previously computed\n"


def lib():
    return ctypes.CDLL(os.environ["LD_PRELOAD"])


def ensure_preload():
    """restart the interpreter with the fault injector preloaded"""
    if "mc_crash.so" in os.environ.get("LD_PRELOAD", ""):
        return
    so = SCRATCH / "mc_crash.so"
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, Path(__file__).parent.parent / "crash.c", "-ldl"], check=True)
    os.environ["LD_PRELOAD"] = str(so)
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:])


def run_child(func, fault=None, timeout=60):
    """run func in a child process with a fault; return (status, count)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            os.close(r)
            L = lib()
            with quiet():
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1), os.dup2(null, 2)
                if fault:
                    L.mc_arm(str(fault[0]).encode(), ctypes.c_long(fault[1]), fault[2], str(fault[3]).encode())
                exc = func()
                n = L.mc_count()
                L.mc_disarm()
            os.write(w, f"{n} {exc!r}".encode()[:4000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    t_end = time.time() + timeout
    status = None
    while time.time() < t_end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if status is None:
        os.waitpid(pid, 0)
        os.close(r)
        return "hang", ""
    out = b""
    os.set_blocking(r, False)
    try:
        out = os.read(r, 5000)
    except BlockingIOError:
        pass
    os.close(r)
    return os.waitstatus_to_exitcode(status), out.decode()


def compute(kind, d, how, res, ex, nb, kw):
    T = data.topo_class(kind)
    t = T(data.make_params(kind, d / "im", how, res, **kw))
    exc = data.compute(t, ex, nb)
    compute.results = [os.path.basename(str(r)) for r in getattr(t, "results", [])]
    return exc


class Repr(str):
    __repr__ = str.__str__


def mark(path):
    path.write_bytes(MARK)


def files_of(kind, res):
    """name -> content (canonical), result of the computation `kind`"""
    out = {}
    if kind == "mean":
        p = Path(str(res) + ".png")
        return {p.name: data.canon_file(p)} if p.exists() else {}
    if not res.exists():
        return out
    for p in sorted(res.iterdir()):
        if p.name.startswith(data.BOOKKEEPING) or p.name.startswith(".") or p.is_dir():
            continue
        if p.read_bytes() == MARK:
            out[p.name] = "old"
        else:
            try:
                out[p.name] = data.canon_file(p)
            except Exception as err:
                out[p.name] = f"unreadable ({type(err).__name__})"
    return out


def jobs(res):
    return {p for p in res.iterdir() if p.name.startswith("job_")} if res.exists() else set()


def claimed_results(res, after, what):
    """the record of a job never claims a result which does not exist"""
    for job in jobs(res):
        total = 0
        for p in job.glob("results*.txt"):
            text = p.read_text()
            for name in text.split("\n")[:-1]:  # (the last line can be truncated)
                check(name in after, f"{what}: {name} listed in {job.name}/{p.name} but there is no such result", "claimed")
        for p in job.glob("len_results*.txt"):
            text = p.read_text()
            total += int(text) if text.endswith("\n") else 0
        check(total <= len(after), f"{what}: {total} results announced by the job, {len(after)} results", "claimed")


def one(d, cfg, ref, tag, n, mode, second=None):
    """one faulty computation then one without fault; returns (reached, op, nontrivial)"""
    kind, names, ex, nb, how, exist, kw, shape = cfg
    res = d / f"res{tag}"
    log = d / f"fault{tag}"
    files = sorted(ref)
    old = [files[i] for i in exist]
    if old:
        res.mkdir()
        for f in old:
            mark(res / f)
    prefix = str(res)
    status, out = run_child(lambda: Repr(f"{compute(kind, d, how, res, ex, nb, kw)!r} {json.dumps(compute.results)}"), (prefix, n, mode, log))
    op = log.read_text().splitlines()[0].replace(str(d) + "/", "") if log.exists() else None
    what = f"{kind} {len(names)} images {kw} {ex} {how} existing={old}: {MODES[mode]} operation {n} ({op})"
    if op is None:
        return False, None, False
    check(status != "hang", f"{what}: the computation does not end", "hang")
    if second is not None:
        status, out = run_child(lambda: compute(kind, d, "complete", res, ex, nb, kw), (prefix, second[0], second[1], d / f"fault2{tag}"))
        what += f" then complete with {MODES[second[1]]} operation {second[0]}"
        check(status != "hang", f"{what}: the computation does not end", "hang")
    after = files_of(kind, res)
    for f, c in after.items():
        check(f in ref, f"{what}: unexpected result file {f}", "unexpected")
        ok = (ref[f],) + (("old",) if f in old else ())
        check(c in ok, f"{what}: then {f} is neither absent nor complete ({c})", f"partial:{kind}")
    for f in old:
        check(f in after, f"{what}: the result {f}, computed before, has been lost", "lost")
        if how == "complete":
            check(after[f] == "old", f"{what}: existing result {f} modified", "existing")
    if kind != "mean":
        claimed_results(res, after, what)
        if status == 0 and second is None:
            for name in json.loads(out[out.rindex("[") :]):
                check(name in after, f"{what}: {name} in topology.results but there is no such result", "claimed-topology")
    jobs0 = jobs(res)
    # computation without fault
    how2 = "recompute" if kind == "mean" else "complete"
    status, out = run_child(lambda: repr(compute(kind, d, how2, res, ex, nb, kw)) + repr(compute.results))
    check(status == 0, f"{what}: then {how2}: status {status} {out}", "complete-status")
    check("None[" in out, f"{what}: then {how2}: raised {out}", "complete-raised")
    final = files_of(kind, res)
    check(sorted(final) == files, f"{what}: then {how2}: results {sorted(final)} instead of {files}", "complete-files")
    for f in files:
        expect = after[f] if f in after and kind != "mean" else ref[f]
        check(final[f] == expect, f"{what}: then {how2}: content of {f}", "complete-content")
    missing = [f for f in files if f not in after]
    if kind != "mean":
        if missing:
            new = jobs(res) - jobs0
            check(len(new) == 1, f"{what}: then {how2}: {len(new)} job directories", "job")
            job = new.pop()
            check(not (job / "is_running.lock").exists() and (job / "time_end.txt").exists(), f"{what}: then {how2}: job not closed", "job-closed")
    else:
        missing = files
    import shutil

    shutil.rmtree(res, ignore_errors=True)
    return True, op, bool(missing)


def case(rec, case):
    if "mc_crash.so" not in os.environ.get("LD_PRELOAD", ""):
        ensure_preload()
    cfg, modes, part, nparts, double = case
    kind, names, ex, nb, how, exist, kw, shape = cfg
    with tmpdir() as d:
        data.make_images(d / "im", names, shape=shape)
        # (everything imported before the forks)
        from fluidimage.executors import import_executor_class

        import_executor_class(ex)
        compute(kind, d, "recompute", d / "warm", "exec_sequential", None, kw)
        status, out = run_child(lambda: compute(kind, d, "recompute", d / "ref", "exec_sequential", None, kw))
        check(status == 0 and out.endswith(" None"), f"{cfg}: {status} {out}", "reference")
        ref = files_of(kind, d / "ref")
        check(len(ref), f"{cfg}: no result", "reference")
        ref = {k.replace("ref", "res"): v for k, v in ref.items()}  # (mean)
        for mode in modes:
            n = part
            misses = 0
            while misses < 2 and n < 5000:
                if kind == "mean":
                    ref = {f"res{mode}-{n}.png": list(ref.values())[0]}
                if double:
                    m = 0
                    while m < 5000:
                        reached, op, nt = one(d, cfg, ref, f"{mode}-{n}", n, mode, (m, 0))
                        rec.count("evaluations")
                        if not reached:
                            break
                        if nt:
                            rec.nontrivial((cfg, mode, n, m))
                        reached2 = (d / f"fault2{mode}-{n}").exists()
                        for f in d.glob("fault*"):
                            f.unlink()
                        m += 1
                        if not reached2:
                            break
                else:
                    reached, op, nt = one(d, cfg, ref, f"{mode}-{n}", n, mode)
                    if reached:
                        rec.count("evaluations")
                        rec.count("fault_points")
                    if nt:
                        rec.nontrivial((cfg, mode, n))
                        rec.sample(dict(config=cfg[:6], fault=f"{MODES[mode]} operation {n}: {op}"))
                misses = 0 if reached else misses + 1
                n += nparts
            check(rec.counts.get("evaluations", 0) > 2, f"{cfg}: the faults are not injected", "harness")


def cases(quick):
    s8, s32 = (8, 8), (32, 32)
    n2, n3 = data.names_1d(2), data.names_1d(3)
    seq, asy, masy = ("exec_sequential", None), ("exec_async", 2), ("multi_exec_async", 2)
    C = []

    def add(kind, names, ex, how="recompute", exist=(), kw=None, shape=s8, modes=(0, 1, 2, 3), nparts=4, double=False):
        cfg = (kind, names, ex[0], ex[1], how, tuple(exist), kw or {}, shape)
        for part in range(nparts):
            C.append((cfg, modes, part, nparts, double))

    add("im2im", n2, seq)
    add("im2im", n3, seq, "complete", (1,), modes=(0, 1))
    add("im2im", n2, seq, "recompute", (0, 1), modes=(1, 2))
    add("piv", n3, seq, "recompute", (0,), shape=s32, modes=(1, 3), nparts=8)
    add("bos", n2, seq, shape=s32, modes=(1,), nparts=8)
    add("preproc", n2, seq, modes=(1, 2))
    add("mean", n2, seq, modes=(1, 2))
    add("piv", n3, seq, shape=s32, modes=(2,), nparts=8)
    add("piv", n2, asy, shape=s32, modes=(2,), nparts=8)
    add("bos", n2, seq, shape=s32, modes=(2,), nparts=8)
    add("im2im", n2, asy, modes=(0, 2))
    add("im2im", n3, masy, modes=(0,), nparts=6)
    if not quick:
        for ex in (asy, masy, ("exec_async_sequential", None), ("multi_exec_sync", 2)):
            add("im2im", n3, ex, modes=(0, 1, 2, 3), nparts=8)
            add("piv", n3, ex, shape=s32, modes=(1, 3), nparts=8)
        for kind in ("piv", "bos", "preproc"):
            for how, exist in (("recompute", ()), ("complete", (0,)), ("recompute", (0,))):
                add(kind, n3, seq, how, exist, shape=s32, modes=(0, 1, 2, 3), nparts=16)
        add("mean", n3, masy, modes=(0, 1, 2), nparts=8)
        add("im2im", n2, seq, modes=(0, 1), nparts=16, double=True)
    return C


def run(ctx):
    ensure_preload()
    ctx.pmap(case, cases(ctx.quick), timeout=800, chunk=1)
