"""P02: a failing step only affects the items which depend on it, and is logged"""
import itertools

from mc import common, schedcheck, sched, toy

LEVEL = "model_checking"
RULE = (
    "For every small topology, every single failure (step, item) and every pair of "
    "failures, all schedules with a bounded number of deviations of the real executors."
)
ASSUMPTIONS = ["failures are exceptions raised by the function of a step"]


def specs():
    out = []
    for shape in (
        dict(shape="linear", n=2, kinds=["io", "cpu"]),
        dict(shape="couples", n=3),
        dict(shape="split", n=2),
        dict(shape="nosink", n=2),
    ):
        execs, saved, _, _ = toy.expected_results(shape)
        points = sorted({(w, toy.item_of(a[1] if isinstance(a, tuple) else a)) for w, a in execs})
        fails = [(p,) for p in points] + list(itertools.combinations(points, 2))
        for f in fails:
            out.append(dict(shape, fail=[list(x) for x in f]))
    return out


def case(rec, case):
    if case.get("stop"):
        return stop_case(rec, case)
    schedcheck.sched_case(rec, case)


def stop_case(rec, case):
    """stop_if_error=True: compute() has to raise, under every explored schedule"""
    spec = case["spec"]

    def execute(ch):
        return toy.run_toy(spec, case["ex"], ch, dict(nb_max_workers=2, stop_if_error=True), max_steps=4000)

    e = sched.DevExplorer(execute, case["mode"])
    for r in e.run():
        if r.abort_reason is not None:
            rec.violation(f"{r.abort_reason}", "stop-hang", dict(case, choices=r.choices))
            return
        if r.aborted:
            continue

        def has(err):
            if isinstance(err, BaseExceptionGroup):
                return any(has(x) for x in err.exceptions)
            return isinstance(err, toy.ToyError)

        if not has(r.error):
            rec.violation(
                f"stop_if_error=True: the error was not raised by compute() but {r.error!r}; {r.trace}",
                "stop", dict(case, choices=r.choices),
            )
            return
        rec.count("schedules_to_the_end")
    rec.count("states", len(e.ids))
    rec.count("transitions", e.transitions)
    rec.count("traces", e.runs)


def replay(rec, c):
    if c.get("stop"):
        c = {k: v for k, v in c.items() if k != "choices"}
        return stop_case(rec, c)
    schedcheck.replay(rec, c)


def run(ctx):
    cases = []
    q = ctx.quick
    for spec in specs():
        n = len(spec["fail"])
        for ex in ("exec_sequential", "exec_async", "exec_async_sequential", "exec_async_seq_for_multi",
                   "exec_async_multi", "exec_async_servers"):
            if spec["shape"] == "couples" and ex == "exec_async_servers":
                pass
            mode = 0
            if ex in ("exec_async", "exec_async_sequential"):
                mode = 1 if n == 1 or not q else 0
                if not q and n == 1:
                    mode = 2
            if not q and ex in ("exec_async_multi", "exec_async_servers") and n == 1:
                mode = 1
            cases.append(dict(ex=ex, spec=spec, kw=dict(nb_max_workers=2), mode=mode,
                              checks=("once", "failures"), wall=600))
        if n == 1:
            for ex in ("exec_sequential", "exec_async", "exec_async_sequential", "exec_async_multi"):
                cases.append(dict(stop=True, ex=ex, spec=spec, mode=1 if q else 2))
    cases.sort(key=lambda c: -c["mode"])
    ctx.pmap(case, cases, timeout=600, chunk=2)
