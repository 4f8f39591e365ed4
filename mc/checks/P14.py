"""P14: mean image, whatever the schedule and the partition"""
import itertools
from types import SimpleNamespace

import numpy as np

from ..common import check, quiet, tmpdir
from ..data import make_images, make_params, names_1d, names_2d, topo_class
from ..explore import Explorer, digest

LEVEL = "model_checking"
RULE = (
    "for each number of images, image type, set of unreadable images and partition among "
    "processes, all interleavings of the real steps (reading starts / ends, calls of the global work); each "
    "possible set of partial sums is given to the real final reduction, whose result is compared with "
    "the mean computed with exact integers"
)
ASSUMPTIONS = ["the integer sums do not exceed 2**32"]


def pixel(i, kind):
    """image i (integers, all different, large values included)"""
    y, x = np.mgrid[0:2, 0:3]
    if kind == "u8":
        a = (40 * i + 17 * x + 99 * y + 11 * i * i) % 256
        a[0, 0] = 255
        return a.astype(np.uint8)
    if kind == "u16":
        a = (9973 * (i + 1) + 4001 * x + 30011 * y) % 65536
        a[0, 0] = 65535
        return a.astype(np.uint16)
    if kind == "rgb":
        return np.stack([pixel(i, "u8"), pixel(i + 1, "u8"), pixel(i + 2, "u8")], axis=-1)
    raise ValueError


def partitions(n, k):
    """splits of range(n) in k groups as strided / contiguous / unbalanced"""
    out = set()
    idx = tuple(range(n))
    out.add(tuple(tuple(c) for c in np.array_split(idx, k)))
    out.add(tuple(idx[i::k] for i in range(k)))
    if n > k:
        out.add(tuple((i,) for i in range(k - 1)) + (idx[k - 1 :],))
    return [tuple(tuple(int(i) for i in g) for g in p) for p in out]


def cases(quick):
    out = []
    for kind in ("u8", "u16"):
        for n in range(1, 6 if quick else 8):
            for inflight in (1, 2) if quick else (1, 2, 3):
                if n > 6 and inflight > 2:
                    continue
                out.append(dict(kind=kind, n=n, parts=None, fail=(), inflight=inflight))
    for n in range(1, 22 if quick else 34):
        # longer histories: one reading at a time
        out.append(dict(kind="u8", n=n, parts=None, fail=(), inflight=0))
    for n in (2, 3, 4) if quick else (2, 3, 4, 5):
        for k in (1, 2):
            if k < n:
                for fail in itertools.combinations(range(n), k):
                    if fail[0] == 0 and n == 2 and k == 2:
                        continue
                    out.append(dict(kind="u8", n=n, parts=None, fail=fail, inflight=2))
    for n in range(2, 7 if quick else 12):
        for k in range(2, min(n, 6) + 1):
            for p in partitions(n, k):
                out.append(dict(kind="u16" if n % 2 else "u8", n=n, parts=p, fail=(), inflight=2 if n < 5 else 1))
    return out


def run(ctx):
    cs = cases(ctx.quick)
    cs.sort(key=lambda c: -c["n"] * (1 + c["inflight"]))
    ctx.pmap(case, cs, timeout=400, chunk=1)
    ctx.extra["configurations"] = len(cs)


class Exec:
    """what the topology can see of the executor"""

    def __init__(self, path_job_data, index, state=None):
        self.path_job_data = path_job_data
        if index is not None:
            self.index_process = index
        self._state = state


def case(rec, c):
    from PIL import Image

    n, kind = c["n"], c["kind"]
    names = names_1d(n)
    with tmpdir() as d:
        make_images(d / "im", names)
        values = []
        for i, name in enumerate(names):
            a = pixel(i, kind)
            values.append(a)
            Image.fromarray(a).save(d / "im" / name)
        parts = c["parts"] or (tuple(range(n)),)
        outcomes = []  # for each process: set of possible partial sums (files)
        for index, part in enumerate(parts):
            outcomes.append(explore_part(rec, c, d, names, values, part, index if c["parts"] else None))
        good = [i for i in range(n) if i not in c["fail"]]
        exp = (sum(values[i].astype(object) for i in good) // len(good)).astype(values[0].dtype)
        # all the combinations (at most one outcome per process is expected, up to the order)
        for combi in itertools.product(*outcomes):
            job = d / "job_final"
            job.mkdir()
            for name_file, content in (x for o in combi for x in o):
                (job / name_file).write_bytes(content)
            with quiet():
                topology = make(c, d)
                topology.executor = Exec(job, None)
                topology.final_seq_work()
            got = topology.result
            check(
                got.dtype == exp.dtype and np.array_equal(got, exp),
                lambda: f"mean {got.tolist()} ({got.dtype}) expected {exp.tolist()} ({exp.dtype})",
                "mean",
            )
            saved = np.array(Image.open(topology.path_result))
            check(
                np.array_equal(saved, exp),
                lambda: f"saved {saved.tolist()} expected {exp.tolist()}",
                "saved",
            )
            check(not list(job.iterdir()), "temporary files left", "left")
            job.rmdir()
            rec.count("traces")


def make(c, d):
    params = make_params("mean", d / "im", how="recompute", saving=d / "res")
    T = topo_class("mean")
    return T(params, logging_level=None)


def explore_part(rec, c, d, names, values, part, index):
    job = d / f"job{index}"
    job.mkdir()
    good = [i for i in part if i not in c["fail"]]
    exp_sum = sum(values[i].astype(np.int64) for i in good)
    with quiet():
        topology = make(c, d)
        topology.executor = Exec(job, index)
        if c["parts"]:
            # as done for the multi executors (indices of the images of each process)
            path_indices = d / f"indices{index}.txt"
            all_indices = list(topology.serie.iter_indices())
            path_indices.write_text("\n".join(str(all_indices[i]) for i in part) + "\n")
            topology.how_saving = "from_path_indices"
            topology.params.images._set_attrib("path_indices_file", str(path_indices))
        ex = Explorer(
            topology, lambda t: (sorted(p.name for p in job.iterdir()), len(t.results)),
            max_inflight=max(1, c["inflight"]), hook=lambda s: hook(s),
        )

    outcomes = {}

    def hook(state):
        # the executors with asynchronous readings expose their number
        if c["inflight"]:
            state.t.executor.nb_working_workers_io = len(state.inflight)

    # the file system is not part of the copied state: partial sums are kept in the state
    def observe(t):
        return getattr(t, "_mc_files", ())

    def sync(state):
        new = tuple((p.name, p.read_bytes()) for p in sorted(job.iterdir()))
        if new:
            old = getattr(state.t, "_mc_files", ())
            check(not old, "partial sum written twice", "twice")
            state.t._mc_files = new
            for p in job.iterdir():
                p.unlink()

    apply = ex.apply

    def apply_sync(state, action):
        hook(state)
        text = apply(state, action)
        sync(state)
        return text

    ex.apply = apply_sync
    ex.observe = lambda t: (tuple((n_, read_sum(b)) for n_, b in observe(t)), len(t.results))
    if not c["inflight"]:
        # sequential reading: a reading is atomic
        ex.atomic = True
    read_bad = [names[i] for i in c["fail"]]
    backup = {}
    for b in read_bad:
        p = d / "im" / b
        backup[p] = p.read_bytes()
        p.write_bytes(b"not an image")

    def terminal(state):
        left = {q.name: len(q) for q in state.t.queues if len(q)}
        check(not left, lambda: f"items left in queues {left}", "left-items")
        files = observe(state.t)
        check(len(files) == (1 if good else 0), lambda: f"{len(files)} partial sums", "files")
        for name, b in files:
            arr, num = read_sum_arrays(b)
            check(
                num == len(good) and np.array_equal(arr.astype(np.int64), exp_sum),
                lambda: f"partial sum {arr.tolist()} ({num} images), expected {exp_sum.tolist()} ({len(good)})",
                "partial",
            )
            # (the content of the file does not depend on the schedule, apart from its metadata)
            outcomes[name, arr.tobytes(), num] = b

    with quiet():
        ex.run(terminal)
    for p, b in backup.items():
        p.write_bytes(b)
    check(ex.terminals, "the computation can not end", "no-end")
    rec.count("states", ex.states)
    rec.count("transitions", ex.transitions)
    rec.sample(dict(case=c, states=ex.states))
    job.rmdir()
    return [((k[0], b),) for k, b in outcomes.items()]


def read_sum_arrays(b):
    import io

    import h5py

    with h5py.File(io.BytesIO(b), "r") as f:
        return f["arr"][...], int(f.attrs["num_images"])


def read_sum(b):
    arr, num = read_sum_arrays(b)
    return digest(arr), num
