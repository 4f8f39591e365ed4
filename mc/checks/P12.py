"""P12: images assembled in couples / subsets / chains, whatever the schedule"""
import itertools

import numpy as np

from ..common import check, quiet, tmpdir
from ..data import img, make_images, make_params, names_1d, names_2d, topo_class
from ..explore import Explorer, digest

LEVEL = "model_checking"
RULE = (
    "every interleaving (start / end of each step for each item, call of the global works) of the "
    "steps of the real topologies is explored with at most 2 (quick) or 3 (thorough) items processed at the "
    "same time; states are merged when queues, items in progress and results are equal; every "
    "state where no step can progress is compared with the expected set of results"
)
ASSUMPTIONS = [
    "the numerical functions (PIV, preprocessing, phase processing) are replaced by symbolic functions",
    "a step takes the first item of its queue (as all executors do)",
]


def im2im_mark(tup):
    name, image = tup
    return image + 100


class FakeRes:
    def __init__(self, names, arrays):
        self.value = (tuple(names), tuple(digest(np.asarray(a)) for a in arrays))

    def save(self, path=None, **kw):
        return self.value

    def mc_digest(self):
        return repr(self.value)


def fake_velocimetry(cls):
    class Work:
        @classmethod
        def create_default_params(cls_):
            return cls.create_default_params()

        @classmethod
        def _complete_params_with_default(cls_, params):
            return cls._complete_params_with_default(params)

        def __init__(self, params):
            self.params = params

        def calcul(self, couple):
            return FakeRes(couple.names, couple.get_arrays())

    return Work


class FakePreproc:
    real = None

    @classmethod
    def create_default_params(cls, *a, **k):
        return cls.real.create_default_params(*a, **k)

    def __init__(self, params):
        self.params = params
        self.display = None

    def calcul(self, subset):
        for a in subset.arrays:
            if isinstance(a, Exception):
                raise a
        return FakeRes(subset.names, subset.arrays)


def H(*args):
    return digest(np.frombuffer(digest(args).encode(), dtype=np.uint8))


class FakeSurf:
    """symbolic phases: the value of each item tells how it has been obtained"""

    real = None

    @classmethod
    def _complete_params_with_default(cls, params):
        return cls.real._complete_params_with_default(params)

    def __init__(self, params):
        pass

    def process_frame_func(self, array):
        if isinstance(array, Exception):
            raise array
        return "angle(" + digest(array)[-6:] + ")"

    def correctcouple(self, couple):
        a, b = couple
        for x in couple:
            if isinstance(x, Exception):
                raise ValueError("failed")
        return f"corr({a},{b})"

    def calculheight_func(self, angle):
        return f"h({angle})"

    def set_borders_zero_func(self, h):
        return f"b({h})"


def subset_names(names, kind):
    """independent computation of the groups of images (names ordered)"""
    n = len(names)
    if kind == "i:i+2":
        return [(names[i], names[i + 1]) for i in range(n - 1)]
    if kind == "i:i+3:2":
        return [(names[i], names[i + 2]) for i in range(n - 2)]
    if kind == "i:i+1":
        return [(names[i],) for i in range(n)]
    if kind == "i:i+3":
        return [tuple(names[i : i + 3]) for i in range(n - 2)]
    if kind == "i, 0:2":
        return [(names[i], names[i + 1]) for i in range(0, n, 2)]
    if kind == "i:i+2, 0":
        return [(names[i], names[i + 2]) for i in range(0, n - 2, 2)]
    if kind == "i:i+2, 0:2":
        return [tuple(names[i : i + 4]) for i in range(0, n - 2, 2)]
    raise ValueError(kind)


def cases(quick):
    out = []

    def add(kind, n, subset, im2im=False, fails=(0,), two=False, letters="ab", inflight=2, **kw):
        nb = n * len(letters) if two else n
        for k in fails:
            for fail in itertools.combinations(range(nb), k):
                if im2im:
                    wheres = ("read", "im2im")
                else:
                    wheres = ("read",)
                for where in wheres if fail else ("read",):
                    out.append(dict(kind=kind, n=n, subset=subset, im2im=im2im, fail=fail, where=where,
                                    two=two, inflight=inflight, **kw))

    add("piv", 3, "i:i+2", fails=(0, 1, 2))
    add("piv", 3, "i:i+2", im2im=True, fails=(0, 1))
    add("piv", 4, "i:i+2", fails=(0, 1))
    add("piv", 4, "i:i+3:2", fails=(0, 1))
    add("piv", 2, "i, 0:2", two=True, fails=(0, 1))
    add("piv", 3, "i:i+2, 0", two=True, fails=(0,))
    add("optical_flow", 3, "i:i+2", fails=(0, 1))
    add("preproc", 3, "i:i+1", fails=(0, 1))
    add("preproc", 3, "i:i+1", fails=(0,), im2im=True)
    add("preproc", 4, "i:i+3", fails=(0, 1))
    add("preproc", 3, "i:i+2", fails=(0, 1, 2))
    add("preproc", 2, "i:i+2, 0:2", two=True, fails=(0, 1))
    add("surf", 2, None, fails=(0, 1))
    add("surf", 3, None, fails=(0, 1))
    add("surf", 3, None, fails=(0,), im2im=True)
    add("piv", 5, "i:i+2", fails=(0, 1))
    add("piv", 4, "i:i+2", im2im=True, fails=(0, 1), inflight=3)
    add("piv", 3, "i, 0:2", two=True, fails=(0, 1))
    add("preproc", 5, "i:i+3", fails=(0, 1, 2))
    add("preproc", 4, "i:i+2", fails=(0, 1))
    add("surf", 4, None, fails=(0, 1))
    add("surf", 3, None, fails=(0, 1), inflight=3)
    # real preprocessing (temporal median), content of the images saved
    for n, subset, two, step in ((4, "i:i+1", False, 1), (3, "i:i+1", False, 1), (2, "i, 0:2", True, 1), (4, "i:i+2", False, 2), (6, "i:i+3", False, 3),
                                 (4, "i:i+3", False, 1)):
        out.append(dict(kind="preproc", n=n, subset=subset, im2im=False, fail=(), where="read", two=two,
                        inflight=2, saved=True, step=step))
    if not quick:
        add("piv", 6, "i:i+2", fails=(0,))
        add("piv", 5, "i:i+2", fails=(0, 1), inflight=4)
        add("surf", 5, None, fails=(0,))
        add("surf", 4, None, fails=(0, 1), inflight=3, im2im=True)
        add("piv", 3, "i:i+2", fails=(0, 1), inflight=3)
        add("piv", 5, "i:i+2", fails=(0,))
        add("piv", 4, "i:i+2", im2im=True, fails=(0, 1))
        add("piv", 4, "i:i+2", fails=(0, 2), inflight=3)
        add("piv", 3, "i, 0:2", two=True, fails=(0, 1))
        add("preproc", 5, "i:i+3", fails=(0, 1), inflight=2)
        add("preproc", 4, "i:i+2", fails=(0, 2), inflight=3)
        add("preproc", 3, "i:i+2, 0:2", two=True, fails=(0,))
        add("surf", 4, None, fails=(0, 1), inflight=2)
        add("surf", 3, None, fails=(0, 1, 2), inflight=3)
    return out


def run(ctx):
    cs = cases(ctx.quick)
    cs.sort(key=lambda c: (-c["n"] - c["inflight"] - 2 * c["im2im"] - 2 * c["two"]))
    ctx.pmap(case, cs, timeout=600 if not ctx.quick else 300, chunk=1)
    ctx.extra["configurations"] = len(cs)


FAIL = set()


def im2im_fail(tup):
    name, image = tup
    import os

    if os.path.basename(str(name)) in FAIL:
        raise ValueError("planned")
    return im2im_mark(tup)


def img_saved(i, shape):
    return np.random.RandomState(i).randint(0, 200, shape).astype(np.uint8)


def build(c, d):
    import fluidimage.topologies.preproc as mod_preproc
    import fluidimage.topologies.surface_tracking as mod_surf

    kind = c["kind"]
    names = names_2d(c["n"], 0) if c["two"] else names_1d(c["n"])
    make_images(d / "im", names, shape=(4, 4), func=img_saved if c.get("saved") else None)
    bad = [names[i] for i in c["fail"]]
    FAIL.clear()
    if c["where"] == "im2im":
        FAIL.update(bad)
    params_kw = {}
    T = topo_class(kind)
    if kind in ("piv", "optical_flow"):
        T = type("T", (T,), dict(WorkVelocimetry=fake_velocimetry(T.WorkVelocimetry)))
    elif kind == "preproc" and c.get("saved"):
        mod_preproc.WorkPreproc = FakePreproc.real or mod_preproc.WorkPreproc

        def save_preproc_object(self, obj):
            for k, v in obj.data.items():
                self.results[k] = digest(np.asarray(v))

        T = type("T", (T,), dict(save_preproc_object=save_preproc_object))
    elif kind == "preproc":
        FakePreproc.real = FakePreproc.real or mod_preproc.WorkPreproc
        mod_preproc.WorkPreproc = FakePreproc

        def save_preproc_object(self, obj):
            self.results.append(obj.save())

        T = type("T", (T,), dict(save_preproc_object=save_preproc_object))
    elif kind == "surf":
        FakeSurf.real = FakeSurf.real or mod_surf.WorkSurfaceTracking
        mod_surf.WorkSurfaceTracking = FakeSurf

        def save_image(self, tup):
            self.results.append((str(tup[0]).rsplit("/", 1)[-1], tup[1]))

        T = type("T", (T,), dict(save_image=save_image, results=None))
    if kind == "piv":
        params = make_params(kind, d / "im", saving=d / "res")
    else:
        params = make_params(kind, d / "im", saving=d / "res", **params_kw)
    if c["subset"]:
        params.series.str_subset = c["subset"]
        params.series.ind_start = 0
    if c.get("saved"):
        params.tools.temporal_median.enable = c["subset"] != "i:i+1"
        params.tools.rescale_intensity.enable = c["subset"] == "i:i+1"
        params.tools.temporal_median.window_shape = (3, 1, 1)
        params.series.ind_step = c["step"]
    f = "mc.checks.P12.im2im_fail"
    if c["im2im"]:
        (params.im2im if kind == "preproc" else params.preproc).im2im = f
    topology = T(params, logging_level=None)
    if kind == "surf":
        topology.results = []
    if c.get("saved"):
        topology.results = {}
    # some images are not readable (after the creation of the topology)
    if c["where"] == "read":
        for b in bad:
            (d / "im" / b).write_bytes(b"not an image")
    return topology, names, set(bad)


def expected(c, names, bad):
    value = {}
    for i, name in enumerate(names):
        a = img(i, shape=(4, 4))
        value[name] = a + 100 if c["im2im"] else a
    if c["kind"] == "surf":
        out = []
        prev = None
        for i, name in enumerate(names):
            if name in bad:
                break
            angle = "angle(" + digest(value[name])[-6:] + ")"
            if prev is None:
                prev = angle
            prev = f"corr({prev},{angle})"
            out.append((name, f"b(h({prev}))"))
        return sorted(out)
    out = []
    for group in subset_names(names, c["subset"]):
        if any(g in bad for g in group):
            continue
        out.append((tuple(group), tuple(digest(value[g]) for g in group)))
    return sorted(out)


def case(rec, c):
    with tmpdir() as d:
        with quiet():
            topology, names, bad = build(c, d)
        if c.get("saved"):
            return case_saved(rec, c, topology)
        exp = expected(c, names, bad)

        def observe(t):
            return sorted(t.results)

        def terminal(state):
            left = {q.name: list(q) for q in state.t.queues if len(q)}
            got = sorted(state.t.results)
            check(got == exp, lambda: f"results {got}\nexpected {exp}\nleft in queues {left}", "wrong-results")
            check(not left, lambda: f"items left in queues: {left}", "items-left")
            check(not state.inflight, "items in flight at the end", "inflight")

        def each(state):
            got = state.t.results
            check(len(set(got)) == len(got), lambda: f"duplicated results {sorted(got)}", "duplicated")
            for r in got:
                check(r in exp, lambda: f"unexpected result {r}\nexpected {exp}", "wrong-result")

        # FIFO reference (one possible schedule) is included in the exploration
        with quiet():
            ex = Explorer(topology, observe, max_inflight=c["inflight"])
        ex.run(terminal, each)
        check(ex.terminals, "no terminal state: the computation can not end", "no-end")
        check(ex.complete, "state space larger than the bound", "bound")
        rec.count("states", ex.states)
        rec.count("transitions", ex.transitions)
        rec.count("traces", ex.states)
        rec.sample(dict(case=c, states=ex.states, transitions=ex.transitions, terminal=len(ex.terminals)))


def case_saved(rec, c, topology):
    """the images saved must not depend on the schedule"""
    outcomes = {}

    def terminal(state):
        left = {q.name: list(q) for q in state.t.queues if len(q)}
        check(not left, lambda: f"items left in queues: {left}", "items-left")
        outcomes.setdefault(digest(sorted(state.t.results.items())), sorted(state.t.results))

    with quiet():
        ex = Explorer(topology, lambda t: sorted(t.results.items()), max_inflight=c["inflight"])
    ex.run(terminal)
    check(ex.terminals, "no terminal state", "no-end")
    rec.count("states", ex.states)
    rec.count("transitions", ex.transitions)
    rec.count("traces", ex.states)
    overlap = c["subset"] == "i:i+3" and c["step"] == 1
    check(
        len(outcomes) == 1,
        lambda: f"{len(outcomes)} different contents of the saved images {list(outcomes.values())[0]} depending on the schedule",
        "preproc-overlap" if overlap else "preproc-saved",
    )
    names = list(outcomes.values())[0]
    n = c["n"] * (2 if c["two"] else 1)
    check(len(names) == n, lambda: f"saved images {names}, {n} expected", "preproc-saved-names")
