"""P01: every item goes through every step exactly once, whatever the schedule"""
from mc import schedcheck

LEVEL = "model_checking"
RULE = (
    "Explicit-state exploration of all the interleavings (task starts, wake-ups, thread "
    "starts/ends) of the real executors on small topologies: complete state graph for the "
    "smallest ones, all schedules with at most `mode` deviations from FIFO otherwise."
)
ASSUMPTIONS = [
    "a step run in a worker thread is atomic with respect to the event loop",
    "a task spawned in a trio nursery is overtaken at most once by each sleeping task",
]


def L(n, *kinds, **kw):
    return dict(shape="linear", n=n, kinds=list(kinds), **kw)


def configs(quick):
    out = []

    def add(exs, spec, kw, mode):
        for ex in exs:
            out.append(dict(ex=ex, spec=spec, kw=kw, mode=mode, checks=("once",), wall=300 if quick else 800))

    A, S, M = "exec_async", "exec_async_sequential", "exec_async_seq_for_multi"
    Q = "exec_sequential"
    one, two = dict(nb_max_workers=1), dict(nb_max_workers=2)
    add([A, S], L(1, "cpu"), one, "full")
    add([S], L(2, "cpu"), one, "full")
    add([A, S], dict(shape="nosink", n=2), one, "full" if not quick else 2)
    add([A, S], L(2, "io", "cpu"), one, 2)
    add([A, S, M], L(2, "io", "cpu"), two, 1 if quick else 3)
    add([A, S, M], dict(shape="couples", n=3), two, 1 if quick else 2)
    add([A, S, M], dict(shape="split", n=3), two, 1 if quick else 2)
    add([A, S], L(3, "io", "cpu", "cpu"), two, 1 if quick else 2)
    add([A, S], L(3, "cpu", "io"), dict(nb_max_workers=2, nb_items_queue_max=1), 1 if quick else 2)
    add([A, S, M, Q], L(0, "io", "cpu"), two, 1)
    for n in range(2, 6):
        for spec in (L(n, "io", "cpu"), L(n, "cpu", "cpu"), dict(shape="couples", n=n),
                     dict(shape="split", n=n), dict(shape="nosink", n=n)):
            add([Q, A, S, M], spec, two, 0)
    if not quick:
        add([A, S], L(2, "cpu"), one, "full")
        add([A, S], L(1, "io", "cpu"), one, "full")
        add([A, S], L(2, "cpu"), two, "full")
        add([A, S], L(2, "io", "cpu"), one, 3)
        add([A, S], L(4, "io", "cpu"), dict(nb_max_workers=3), 2)
    return out


case = schedcheck.sched_case
replay = schedcheck.replay


def run(ctx):
    ctx.pmap(case, configs(ctx.quick), timeout=400 if ctx.quick else 840, chunk=1)
