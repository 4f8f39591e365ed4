"""P17: one work object used by several threads gives the sequential results"""
import contextlib

from ..common import check, quiet, tmpdir
from ..linesched import LineRun, points_of_interest, profile
from ..piving import arrays, differences, frozen
from .P16 import make_kind

LEVEL = "model_checking"
RULE = (
    "two threads computing with the same (new) work object, the first one preempted before the first (and last) "
    "execution of each source line of fluidimage, the second one running until its end or until the "
    "preemption point of a second enumeration; results compared with sequential ones"
)
ASSUMPTIONS = [
    "at most one preemption of the first thread (two in the thorough tier), at source lines (the compiled kernels and the external libraries are "
    "executed in their Python versions or atomically)",
]

CAP = 300  # scheduling points per call of a function

CONFIGS = [
    ("piv", "fftw"),
    ("piv", "npfft-2"),
    ("piv", "fftw-2-tps"),
    ("piv", "peaks"),
    ("piv", "mask-fix"),
    ("piv", "signal-small"),
    ("piv", "pythran"),
    ("bos", "mask"),
    ("flow", "mask"),
    ("preproc", "sliding_median+global_threshold"),
    ("preproc", "temporal_median+rescale_intensity_tanh"),
    ("surf", "crop"),
    ("surf", "plain"),
]
REDUCED = ("npfft-2", "fftw-2-tps", "signal-small", "pythran", "sliding_median+global_threshold", "plain")
LETTERS = {"bos": "an", "flow": "ab", "preproc": "ab", "surf": "db"}


def cases(quick):
    out = []
    nb = 8
    for kind, cfg in CONFIGS:
        for order in (0, 1):
            if quick and order and cfg in REDUCED:
                continue
            for part in range(nb):
                out.append((kind, cfg, order, part, nb, quick))
    return out


def case(rec, case):
    kindname, cfg, order, part, nb, quick = case
    # (fluidimage works only: not the import machinery of the code)
    with tmpdir("thr") as d:
        kind = make_kind(kindname, cfg, d, piv0__grid__overlap=0)
        letters = LETTERS.get(kindname, "ab")
        if order:
            letters = letters[::-1]
        ref = []
        for letter in letters:
            ref.append(arrays(kind.compute(kind.make(), kind.input(letter))))
            assert ref[-1]

        def job(work, letter):
            inp = kind.input(letter)

            def func():
                return kind.compute_raw(work, inp)

            return func

        with quiet():
            trace = profile(job(kind.make(), letters[0]), cap=CAP)
            ks = points_of_interest(trace)
            # last occurrences
            last = {}
            for k, loc in enumerate(trace):
                last[loc] = k
            if not quick:
                ks = sorted(set(ks) | set(last.values()) | set(points_of_interest(trace, 2)))
            else:
                ks = sorted(set(ks) | (set() if order or cfg in REDUCED else set(last.values())))
            schedules = [[(0, k), (1, None)] for k in ks]
            if not quick:
                # the second thread is preempted too
                trace1 = profile(job(kind.make(), letters[1]), cap=CAP)
                ks1 = points_of_interest(trace1)
                schedules += [[(0, k), (1, j), (0, None)] for k in ks[:: max(1, len(ks) // 40)] for j in ks1[:: max(1, len(ks1) // 12)]]
        for sched in schedules[part::nb]:
            work = kind.make()
            with quiet():
                run = LineRun([job(work, letters[0]), job(work, letters[1])], list(sched), cap=CAP, block_timeout=0.08)
                results = run.run()
            for i in range(2):
                status, value = results[i]
                diff = differences(ref[i], arrays(value))
                check(
                    diff is None,
                    lambda: f"{kindname} {cfg}: result of thread {i} ({letters[i]!r}) with the schedule {sched} "
                    f"(thread 0 preempted before {'%s:%s' % trace[sched[0][1]]}): {diff}",
                    f"{kindname}-threads",
                )
            # the work can still be used
            if sched[0][1] % 7 == 0:
                diff = differences(ref[0], arrays(kind.compute(work, kind.input(letters[0]))))
                check(diff is None, lambda: f"{cfg}: state of the work after {sched}: {diff}", f"{kindname}-after")
            rec.count("traces")
            rec.count("states", sum(run.points))
            rec.count("transitions", sum(run.points))
        rec.sample(dict(work=kindname, config=cfg, schedules=len(schedules), example=schedules[len(schedules) // 2]))


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=3000, chunk=1)
