"""Exploration of the schedules of the real executors on toy topologies + oracle."""
from . import common, sched, toy

sched.install()


def judge(r, case):
    """List of (key, detail): what is wrong in a finished execution (terminal)"""
    spec, exn = case["spec"], case["ex"]
    out = []
    exp_exec, exp_saved, exp_fail, exp_last = toy.expected_results(spec)
    got = sorted([(w, a) for w, a, p in r.events if p == "start"], key=repr)
    if r.error is not None:
        out.append(("error", f"compute() raised {r.error!r}"))
        return out
    if got != exp_exec:
        missing = [e for e in exp_exec if e not in got]
        extra = list(got)
        for e in exp_exec:
            if e in extra:
                extra.remove(e)
        out.append(("exactly-once", f"not executed: {missing}; executed in excess: {extra}"))
    # (the server executors work on their own instances of the topology)
    if r.results != exp_saved and not ("servers" in exn and spec["shape"] == "nosink"):
        out.append(("results", f"results {r.results} instead of {exp_saved}"))
    if spec.get("save", True) is False:
        last = list(r.queues)[-1]
        if r.queues[last] != exp_last:
            out.append(("last", f"{r.queues[last]} != {exp_last}"))
    return out


def judge_failures(r, case):
    spec, exn = case["spec"], case["ex"]
    out = []
    _, _, exp_fail, _ = toy.expected_results(spec)
    if "servers" not in exn and r.error is None:
        texts = sorted(r.exception_texts)
        if len(texts) != len(exp_fail):
            out.append(("log", f"{len(exp_fail)} failures but {len(texts)} logged: {r.exceptions_logged}"))
        for work, key in exp_fail:
            if not any(work in t and key in t and "planned failure" in t for t in texts):
                out.append(("log", f"failure of {work} on {key} not in the exception logs"))
    return out


def sched_case(rec, case):
    """Explore all the schedules of one configuration"""
    spec, exn, kw = case["spec"], case["ex"], dict(case.get("kw", {}))
    mode = case.get("mode", "full")
    checks = case.get("checks", ("once",))
    toy.CFG["park_inside"] = case.get("park", False)
    nmax = kw.get("nb_max_workers", 1)
    bad_inv = []
    qmax = kw.get("nb_items_queue_max")

    def invariant(ex, world):
        if bad_inv or ex is None:
            return
        for kind in ("cpu", "io"):
            if toy.RUNNING[kind] > nmax:
                bad_inv.append(
                    ("limit", f"{toy.RUNNING[kind]} {kind} works running at once, nb_max_workers={nmax}")
                )
        if qmax is not None:
            prod = {}
            for w in ex.topology.works:
                if w.kind is None or not ("global" in w.kind or "one shot" in w.kind):
                    if w.output_queue is not None:
                        prod[id(w.output_queue)] = w.output_queue
            for q in prod.values():
                if len(q) > qmax + nmax - 1:
                    bad_inv.append(("queue", f"{len(q)} items in {q.name!r}, limit {qmax}, {nmax} workers"))

    def execute(chooser):
        return toy.run_toy(
            spec, exn, chooser, kw, invariant if "limits" in checks else None,
            max_steps=case.get("max_steps", 4000),
        )

    lim = dict(max_wall=case.get("wall", 600), max_runs=case.get("runs", 10**9))
    if mode == "full":
        e = sched.Explorer(execute, **lim)
    else:
        e = sched.DevExplorer(execute, mode, **lim)
    finished = 0
    for r in e.run():
        if r.abort_reason is not None:
            kind = "deadlock" if isinstance(r.abort_reason, sched.Deadlock) else "livelock"
            rec.violation(
                f"{kind}: {str(r.abort_reason)[:600]}\nschedule: {r.trace[-40:]}", kind,
                dict(case, choices=r.choices),
            )
            return
        if bad_inv:
            k, d = bad_inv[0]
            rec.violation(f"{d}\nschedule: {r.trace}", k, dict(case, choices=r.choices))
            return
        if r.aborted:
            continue
        finished += 1
        probs = []
        if "once" in checks:
            probs += judge(r, case)
        if "failures" in checks:
            probs += judge_failures(r, case)
        for k, d in probs[:1]:
            rec.violation(f"{d}\nschedule: {r.trace}", k, dict(case, choices=r.choices))
            return
        if finished == 1:
            rec.sample(dict(executor=exn, spec=spec, kw=kw, schedule=r.trace[:60]))
    if mode == "full" and e.complete:
        stuck = e.stuck_states()
        if stuck:
            rec.violation(
                "livelock: states from which the computation can never end",
                "livelock", dict(case, choices=e.path_to(stuck[0])),
            )
    rec.count("states", len(e.ids))
    rec.count("transitions", e.transitions)
    rec.count("traces", e.runs)
    rec.count("schedules_to_the_end", finished)
    rec.count("configurations")
    rec.count("configurations_complete_graph" if mode == "full" and e.complete else
              "configurations_delay_bounded" if mode != "full" and e.complete else "configurations_truncated")


def replay(rec, case):
    """Re-run the recorded schedule of a violation"""
    toy.CFG["park_inside"] = case.get("park", False)
    r = toy.run_toy(case["spec"], case["ex"], sched.Chooser(tuple(case.get("choices", ())), sched.Replayer()), case.get("kw"))
    print("schedule:", r.trace)
    print("abort:", r.abort_reason, "error:", r.error)
    if r.abort_reason is not None:
        rec.violation(str(r.abort_reason))
        return
    for k, d in judge(r, case) + judge_failures(r, case):
        rec.violation(d, k)
    for kind, n in r.peak.items():
        if n > case.get("kw", {}).get("nb_max_workers", 1):
            rec.violation(f"{n} {kind} works at once")
