"""Shared machinery of the checks: cases, workers, evidence, violations, findings."""

import contextlib
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(os.environ.get("VERIF_DIR", "/verif"))
SCRATCH = Path(os.environ.get("MC_SCRATCH", "/tmp"))
NPROC = min(8, len(os.sched_getaffinity(0)) or 1)


# raised by an oracle which cannot make sense of what the code under test produced
UNINTERPRETABLE = (
    KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, FileNotFoundError,
    ZeroDivisionError, StopIteration,
)


class CaseTimeout(BaseException):
    pass


class Violation(AssertionError):
    """Raised (or recorded) by a case: the property does not hold.

    `key` identifies the specific failing input / history (for known findings)."""

    def __init__(self, detail, key=None):
        super().__init__(detail)
        self.detail = detail
        self.key = key


def check(cond, detail, key=None):
    if not cond:
        raise Violation(detail() if callable(detail) else detail, key)


class Ctx:
    """What a check reports"""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier != "thorough"
        self.counts = {}
        self.samples = []
        self.violations = []  # (case, detail, key)
        self.assumptions = []
        self.rule = ""
        self.level = "exploration"
        self.extra = {}
        self.distinct = set()
        self.errors = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def merge(self, res):
        for k, v in res.get("counts", {}).items():
            self.count(k, v)
        for s in res.get("samples", ()):
            self.sample(s)
        for d in res.get("distinct", ()):
            self.distinct.add(d)
        self.violations += res.get("violations", [])
        self.errors += res.get("errors", [])

    def pmap(self, func, cases, timeout=120, hang_is_violation=True, chunk=None, nproc=None):
        """Run func(rec, case) for every case in worker processes.

        `rec` is a Rec; exceptions of type Violation are recorded, any other exception
        raised while the code under test runs is a violation too ("unexpected")."""
        cases = list(cases)
        preload()
        nproc = min(nproc or NPROC, max(1, len(cases)))
        if chunk is None:
            chunk = max(1, min(50, len(cases) // (nproc * 4) or 1))
        chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
        running = {}
        todo = list(enumerate(chunks))
        while todo or running:
            while todo and len(running) < nproc:
                i, ch = todo.pop(0)
                rfd, wfd = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(rfd)
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        data = pickle.dumps(_run_chunk(func, ch, timeout, hang_is_violation))
                        with os.fdopen(wfd, "wb") as f:
                            f.write(data)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(wfd)
                running[rfd] = (pid, [], ch, time.time() + timeout * len(ch) + 60)
            r, _, _ = select.select(list(running), [], [], 1.0)
            for fd in r:
                data = os.read(fd, 1 << 20)
                if data:
                    running[fd][1].append(data)
                    continue
                pid, bufs, ch, _ = running.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                _killpg(pid)
                if bufs:
                    self.merge(pickle.loads(b"".join(bufs)))
                else:
                    self.errors.append(f"worker died (status {status}) on {repr(ch)[:500]}")
            now = time.time()
            for fd, (pid, bufs, ch, dl) in list(running.items()):
                if now > dl:
                    _killpg(pid)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(pid, signal.SIGKILL)
                    running.pop(fd)
                    os.close(fd)
                    os.waitpid(pid, 0)
                    if hang_is_violation:
                        self.violations.append(
                            (repr(ch)[:300], f"hang: not finished after {timeout} s per case", "hang")
                        )
                    else:
                        self.errors.append(f"hang on {repr(ch)[:300]}")


def _killpg(pid):
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)


def preload():
    """import the code under test once, before the forks (no threads are started)"""
    with contextlib.suppress(Exception):
        from .data import preload_modules

        preload_modules()


class Rec:
    def __init__(self):
        self.counts = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.distinct = []
        self.case = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj, limit=1):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def nontrivial(self, obj):
        self.distinct.append(hashlib.md5(repr(obj).encode()).hexdigest()[:16])

    def violation(self, detail, key=None, case=None):
        if len(self.violations) < 20:
            self.violations.append((case if case is not None else self.case, detail, key))

    def as_dict(self):
        return dict(
            counts=self.counts,
            samples=self.samples,
            violations=self.violations,
            errors=self.errors,
            distinct=self.distinct,
        )


def _run_chunk(func, cases, timeout, hang_is_violation):
    rec = Rec()

    def on_alarm(sig, frame):
        raise CaseTimeout

    for case in cases:
        rec.case = case
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        std = sys.stdout, sys.stderr, os.getcwd()
        t_case = time.time()
        try:
            func(rec, case)
        except Violation as v:
            rec.violation(v.detail, v.key)
        except CaseTimeout:
            if hang_is_violation:
                rec.violation(f"hang: not finished after {timeout} s", "hang")
            else:
                rec.errors.append(f"case {case!r} not finished after {timeout} s")
        except Exception as err:
            tb = traceback.format_exc()
            if _raised_in_code_under_test(err) or isinstance(err, UNINTERPRETABLE):
                # (in the code under test, or in the oracle reading its outcome)
                rec.violation(
                    f"unexpected {type(err).__name__}: {err}\n{tb[-1500:]}",
                    f"exc:{type(err).__name__}",
                )
            else:
                rec.errors.append(f"harness error on {case!r}:\n{tb[-3000:]}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout, sys.stderr = std[:2]
            if os.environ.get("MC_TIMING"):
                print(f"T {time.time() - t_case:7.2f} {rec.counts} {repr(case)[:200]}", flush=True)
            with contextlib.suppress(OSError):
                os.chdir(std[2])
    return rec.as_dict()


def _raised_in_code_under_test(err):
    tb = err.__traceback__
    while tb is not None:
        if "/fluidimage/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    if isinstance(err, BaseExceptionGroup):
        return any(_raised_in_code_under_test(e) for e in err.exceptions)
    return False


# ---------------------------------------------------------------- known findings


def load_findings(prop):
    """known_findings.txt: lines 'known: property=<id> key=<key> <text>'"""
    out = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith(f"known: property={prop} key="):
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                out.append((key, text))
    return out


# ---------------------------------------------------------------- utilities


@contextlib.contextmanager
def quiet():
    """silence stdout / stderr at the Python level"""
    null = open(os.devnull, "w")
    o, e, so, se = sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__
    sys.stdout = sys.stderr = sys.__stdout__ = sys.__stderr__ = null
    try:
        yield
    finally:
        sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__ = o, e, so, se
        null.close()


@contextlib.contextmanager
def tmpdir(prefix="case"):
    d = Path(tempfile.mkdtemp(prefix=prefix))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def listing(path):
    """relative path -> sha1 of the content, for every file below path"""
    path = Path(path)
    out = {}
    for p in sorted(path.rglob("*")):
        if p.is_file():
            out[str(p.relative_to(path))] = hashlib.sha1(p.read_bytes()).hexdigest()
    return out


# ---------------------------------------------------------------- main


def run_check(mod, prop, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    ctx.level = mod.LEVEL
    ctx.rule = getattr(mod, "RULE", "")
    ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    if replay:
        data = json.loads(Path(replay).read_text())
        print(f"replaying {data['case_repr'][:300]}")
        case = pickle.loads(bytes.fromhex(data["case_pickle"]))
        rec = _run_chunk(getattr(mod, "replay", None) or mod.case, [case], 600, True)
        for v in rec["violations"]:
            print("REPRODUCED:", v[1])
        for e in rec["errors"]:
            print(e)
        return 1 if rec["violations"] else 0
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        ctx.errors.append(traceback.format_exc())
    known = load_findings(prop)
    new = []
    hit = {}
    for case, detail, key in ctx.violations:
        for k, text in known:
            if key == k:
                hit.setdefault(k, text)
                break
        else:
            new.append((case, detail, key))
    for k, text in known:
        if k in hit:
            print(f"KNOWN-FINDING: property={prop} {text}")
    rc = 0
    if new:
        rc = 1
        outdir = VERIF / "evidence" / "replay"
        outdir.mkdir(parents=True, exist_ok=True)
        shown = set()
        for n, (case, detail, key) in enumerate(new):
            if key in shown or len(shown) > 5:
                continue
            shown.add(key)
            try:
                pick = pickle.dumps(case).hex()
            except Exception:
                pick = ""
            path = outdir / f"{prop}-{n}.json"
            path.write_text(
                json.dumps(
                    dict(
                        property=prop,
                        case_repr=repr(case),
                        case_pickle=pick,
                        detail=str(detail),
                        key=key,
                        how=f"{VERIF}/check.sh {prop} {tier} {path}",
                    ),
                    indent=1,
                )
            )
            print(f"--- case {repr(case)[:600]}\n    key={key}\n    {str(detail)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
    elif ctx.errors:
        rc = 2
    for e in ctx.errors[:5]:
        print("CHECK-ERROR:", e, file=sys.stderr)
    cov = {}
    c = ctx.counts
    if ctx.level == "model_checking":
        cov["states"] = c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("traces", 0)
    else:
        cov["evaluations"] = c.pop("evaluations", 0)
        cov["distinct_nontrivial"] = len(ctx.distinct)
        cov["rule"] = ctx.rule
    if ctx.level == "model_checking":
        cov["rule"] = ctx.rule
    cov["samples"] = [json.loads(json.dumps(s, default=repr)) for s in ctx.samples] or ["none"]
    cov.update(c)
    cov.update(ctx.extra)
    evidence = dict(
        property=prop,
        tier="thorough" if tier == "thorough" else "quick",
        seed=seed,
        level=ctx.level,
        coverage=cov,
        assumptions=ctx.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(evidence, indent=1))
    short = {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}
    print(f"{prop} {tier}: {short} violations={len(new)} known={len(hit)} errors={len(ctx.errors)} wall={evidence['wall_s']}s rc={rc}")
    return rc
