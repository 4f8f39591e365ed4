"""P03: bounded concurrency and bounded queues, which never block the computation"""
from mc import schedcheck

LEVEL = "model_checking"
RULE = (
    "In every explored state of the real executors (all schedules with a bounded number of "
    "deviations), number of steps being executed <= nb_max_workers for each category and "
    "length of the queues fed by limited steps <= nb_items_queue_max + nb_max_workers - 1; "
    "every execution ends."
)
ASSUMPTIONS = ["limits apply separately to io steps and cpu steps"]


def run(ctx):
    q = ctx.quick
    cases = []

    def add(exs, spec, mode, **kw):
        for ex in exs:
            k = dict(kw)
            if ex == "exec_async_seq_for_multi":
                k.pop("nb_items_queue_max", None)
            cases.append(dict(ex=ex, spec=spec, kw=k, mode=mode, park=True, checks=("once", "limits"), wall=300 if q else 800))

    AS = ("exec_async", "exec_async_sequential")
    for w in (1, 2):
        for qm in (1, 2):
            kw = dict(nb_max_workers=w, nb_items_queue_max=qm)
            add(AS, dict(shape="linear", n=3, kinds=["io", "cpu"]), 1, **kw)
            add(AS, dict(shape="linear", n=3, kinds=["cpu", "cpu"]), 1, **kw)
            add(AS, dict(shape="split", n=2 if q else 4), 1, **kw)
            add(AS, dict(shape="couples", n=3), 0 if q else 1, **kw)
            add(("exec_async_multi",), dict(shape="linear", n=3, kinds=["io", "cpu"]), 0 if q else 1, **kw)
            add(("exec_async_servers",), dict(shape="linear", n=3, kinds=["io", "cpu"]), 0, nb_max_workers=w)
            add(AS + ("exec_async_multi", "exec_sequential"), dict(shape="linear", n=7, kinds=["io", "cpu", "io"]), 0, **kw)
    add(("exec_async",), dict(shape="linear", n=4 if not q else 3, kinds=["io"]), 2, nb_max_workers=3, nb_items_queue_max=1)
    add(AS, dict(shape="linear", n=2, kinds=["cpu"]), 2, nb_max_workers=1, nb_items_queue_max=1)
    add(("exec_async_seq_for_multi",), dict(shape="linear", n=12, kinds=["io", "cpu"]), 0, nb_max_workers=1)
    if not q:
        add(AS, dict(shape="linear", n=3, kinds=["io", "cpu"]), 2, nb_max_workers=2, nb_items_queue_max=1)
        add(AS, dict(shape="split", n=3), 2, nb_max_workers=1, nb_items_queue_max=1)
    cases.sort(key=lambda c: -c["mode"])
    ctx.pmap(case, cases, timeout=400 if ctx.quick else 840, chunk=1)


def case(rec, case):
    if "servers" in case["ex"]:
        case = dict(case, park=False, checks=("once",))
    if case["ex"] == "exec_sequential":
        case = dict(case, checks=("once",))
    schedcheck.sched_case(rec, case)


replay = schedcheck.replay
