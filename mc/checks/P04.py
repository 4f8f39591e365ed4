"""P04: executors delegating to servers / processes lose and duplicate nothing"""
import itertools

from mc import forks, schedcheck
from mc.checks.P01 import L

LEVEL = "model_checking"
RULE = (
    "The servers (their own trio loops) and the processes run as controlled threads "
    "communicating through in-memory pipes; all schedules of client + servers with a bounded "
    "number of deviations from FIFO are explored on the real code. Moreover, with the real "
    "processes: each write of the main thread lasting until another thread starts a process, and "
    "each process killed (3 ways) or raising at each item and pair of items."
)
ASSUMPTIONS = [
    "pipes are reliable and ordered, servers are not killed",
    "each thread is atomic between two blocking operations",
]
def case(rec, case):
    if "what" in case:
        return forks.check_case(rec, case)
    return schedcheck.sched_case(rec, case)


def replay(rec, case):
    return case_(rec, case) if "what" in case else schedcheck.replay(rec, case)


case_ = case


def real_processes(q):
    """cases with the real processes"""
    lin = lambda n, *kinds: dict(shape="linear", n=n, kinds=list(kinds))
    specs = [lin(3, "io", "cpu"), dict(shape="couples", n=4)]
    if not q:
        specs += [lin(2, "cpu", "cpu"), lin(4, "cpu"), dict(shape="split", n=4), dict(shape="nosink", n=3)]
    for spec in specs:
        for ex in ("exec_async_multi", "exec_async_servers"):
            for nb in (2,) if q else (1, 2, 3):
                if spec["shape"] == "couples" and ex == "exec_async_servers":
                    continue
                yield dict(what="fork", spec=spec, executor=ex, nb=nb)
    hows = ("kill", "exit", "os_exit")
    for spec, works in ((lin(3, "io", "cpu"), ["w1"]), (lin(2, "cpu", "cpu"), ["w0", "w1"])):
        places = [f"{w} {i}" for w in works for i in range(spec["n"])]
        faults = [{}] + [{p: h} for p in places for h in hows]
        pairs = [{a: h, b: g} for a, b in itertools.combinations(places, 2) for h in hows for g in (*hows, "raise") if a[-1] != b[-1]]
        faults += pairs[:: 5 if q else 1]
        for nb in (2,) if q else (1, 2, 3):
            for i in range(0, len(faults), 8):
                yield dict(what="kill", spec=spec, executor="exec_async_multi", nb=nb, faults=faults[i : i + 8])


def run(ctx):
    q = ctx.quick
    cases = []

    def add(exs, spec, w, mode):
        for ex in exs:
            cases.append(dict(ex=ex, spec=spec, kw=dict(nb_max_workers=w), mode=mode, checks=("once",), wall=400 if q else 850))

    SV, MP = "exec_async_servers", "exec_async_multi"
    add([SV], L(1, "cpu"), 1, 1 if q else 2)
    add([MP], L(1, "cpu"), 1, 2)
    add([SV, MP], L(2, "io", "cpu"), 1, 1)
    add([SV, MP], L(2, "cpu", "cpu"), 2, 1)
    add([SV, MP], dict(shape="couples", n=3), 2, 0 if q else 1)
    add([SV, MP], dict(shape="split", n=3), 2, 0 if q else 1)
    add([SV, MP], dict(shape="nosink", n=2), 2, 1)
    for n in (1, 3, 5, 7):
        add([SV, MP], L(n, "io", "cpu"), 1, 0)
        add([SV, MP], L(n, "cpu", "cpu"), 2, 0)
    if not q:
        add([SV], L(2, "cpu"), 1, 2)
        add([MP], L(2, "io", "cpu"), 2, 2)
        add([SV], L(2, "cpu"), 2, 2)
    cases += [dict(c, mode=0.5 if q else 1.5) for c in real_processes(q)]
    cases.sort(key=lambda c: -c["mode"])
    ctx.pmap(case, cases, timeout=450 if ctx.quick else 880, chunk=1)
