"""Tiny image directories, parameters of the topologies, observation helpers"""
import os
from pathlib import Path

import numpy as np

from .common import quiet


def write_png(path, arr):
    from PIL import Image

    Image.fromarray(np.asarray(arr)).save(str(path))


def img(seed, shape=(8, 8), dtype=np.uint8):
    """deterministic image identifying `seed`"""
    ny, nx = shape
    y, x = np.mgrid[0:ny, 0:nx]
    a = (7 * x + 13 * y + 31 * seed + (x * y * (seed + 3)) % 11) % 200
    return a.astype(dtype)


def make_images(path, names, shape=(8, 8), func=None):
    path = Path(path)
    path.mkdir(parents=True, exist_ok=True)
    for i, name in enumerate(names):
        write_png(path / name, (func or img)(i, shape=shape))
    return path


def names_1d(n, start=0, fmt="im{:02d}.png"):
    return [fmt.format(i) for i in range(start, start + n)]


def names_2d(n, start=0, letters="ab", fmt="im{:02d}{}.png"):
    return [fmt.format(i, c) for i in range(start, start + n) for c in letters]


def topo_class(kind):
    if kind == "piv":
        from fluidimage.topologies.piv import TopologyPIV as T
    elif kind == "bos":
        from fluidimage.topologies.bos import TopologyBOS as T
    elif kind == "preproc":
        from fluidimage.topologies.preproc import TopologyPreproc as T
    elif kind == "optical_flow":
        from fluidimage.topologies.optical_flow import TopologyOpticalFlow as T
    elif kind == "im2im":
        from fluidimage.topologies.image2image import TopologyImage2Image as T
    elif kind == "mean":
        from fluidimage.topologies.mean import TopologyMeanImage as T
    elif kind == "surf":
        from fluidimage.topologies.surface_tracking import TopologySurfaceTracking as T
    return T


FROM_SERIES = ("piv", "optical_flow", "preproc")


def im2im_ident(tup):
    """an image -> image function"""
    path, image = tup
    return image


def im2im_invert(tup):
    path, image = tup
    return 255 - image


def make_params(kind, path, how="recompute", saving=None, postfix=None, **kw):
    T = topo_class(kind)
    params = T.create_default_params()
    if kind in FROM_SERIES:
        params.series.path = str(path)
        for k in ("str_subset", "ind_start", "ind_stop", "ind_step"):
            if k in kw:
                setattr(params.series, k, kw.pop(k))
    else:
        params.images.path = str(path)
        if "str_subset" in kw:
            params.images.str_subset = kw.pop("str_subset")
    params.saving.how = how
    if saving is not None:
        params.saving.path = str(saving)
    if postfix is not None:
        params.saving.postfix = postfix
    if kind == "im2im":
        params.im2im = kw.pop("im2im", "mc.data.im2im_ident")
    if kind in ("piv", "bos"):
        params.piv0.shape_crop_im0 = kw.pop("crop", 16)
        params.piv0.grid.overlap = 0.0
        params.multipass.number = kw.pop("passes", 1)
    if kind == "bos":
        params.reference = kw.pop("reference", 0)
    if kind == "surf" and "path_ref" in kw:
        params.images.path_ref = str(kw.pop("path_ref"))
        p = params.surface_tracking
        p.xmin, p.xmax, p.ymin, p.ymax = 2, 62, 1, 31
        p.sur, p.borders = 4, 3
    assert not kw, kw
    return params


def make_surf_images(d, n):
    """reference and images for the surface tracking; returns the names of the images"""
    from .piving import SurfaceKind

    names = names_1d(n)
    make_images(d / "ref", ["ref0.png", "ref1.png"], shape=(32, 64), func=lambda i, shape=None: SurfaceKind.frame("r", i))
    make_images(d / "im", names, shape=(32, 64), func=lambda i, shape=None: SurfaceKind.frame("ab"[i % 2], i / 4))
    return names


def selected(topology):
    """[(key, value)] of what the first work (one shot) of a topology selects, plus the
    content of its other output queues"""
    work = topology.works[0]
    with quiet():
        work.func_or_cls(work.input_queue, work.output_queue)
    queues = work.output_queue
    if not isinstance(queues, (tuple, list)):
        queues = (queues,)
    return [list(q.items()) for q in queues]


def reload_xml(params, path):
    from fluidimage import ParamContainer

    params._save_as_xml(path)
    return ParamContainer(path_file=path)


# ------------------------------------------------------------ results of computations


def _canon_h5(path):
    import hashlib

    import h5py

    h = hashlib.sha1()

    def visit(name, obj):
        if name.split("/")[0] == "params":
            return
        h.update(name.encode())
        if isinstance(obj, h5py.Dataset):
            a = obj[()]
            h.update(repr((getattr(a, "shape", None), str(getattr(a, "dtype", type(a))))).encode())
            if getattr(a, "dtype", None) == object:
                h.update(repr(a.tolist()).encode())
            else:
                h.update(np.asarray(a).tobytes())
        for k in sorted(obj.attrs):
            if "path" not in k:
                h.update(repr((k, str(obj.attrs[k]))).encode())

    with h5py.File(path, "r") as f:
        f.visititems(visit)
    return h.hexdigest()


def canon_file(path):
    import hashlib

    path = Path(path)
    if path.suffix == ".h5":
        return _canon_h5(path)
    return hashlib.sha1(path.read_bytes()).hexdigest()


BOOKKEEPING = ("job_", "log_", "indices_files_", "params_files_")


def results_dir(path):
    """name -> canonical content of the result files of a directory"""
    out = {}
    for p in sorted(Path(path).iterdir()):
        if p.name.startswith(BOOKKEEPING):
            continue
        out[p.name] = canon_file(p) if p.is_file() else "directory"
    return out


def fast_polls():
    """the executors poll their subprocesses every 0.2 s and more: make it shorter"""
    import time

    if getattr(time.sleep, "_mc", False):
        return
    real = time.sleep

    def sleep(t):
        real(min(t, 0.01))

    sleep._mc = True
    time.sleep = sleep


def compute(topology, executor, nb=None, **kw):
    """run topology.compute, return the exception raised (or None)"""
    import sys

    from fluidimage.executors import base  # noqa

    with quiet():
        std = sys.stdout, sys.stderr
        try:
            topology.compute(executor, nb_max_workers=nb, sleep_time=0.001, **kw)
        except Exception as err:
            exc = err
        else:
            exc = None
        topology._mc_std_restored = (sys.stdout, sys.stderr) == std
        sys.stdout, sys.stderr = std
    return exc


# ------------------------------------------------------------ faults decided by a file


def im2im_faulty(tup):
    """image -> image function with failures planned in the file $MC_FAULTS

    lines "name action" with action in raise, exit, kill"""
    import signal
    import time

    path, image = tup
    name = os.path.basename(str(path))
    plan = {}
    if "MC_FAULTS" in os.environ:
        for line in open(os.environ["MC_FAULTS"]):
            k, v = line.split()
            plan[k] = v
    action = plan.get(name)
    if action == "raise":
        raise ValueError(f"planned failure {name}")
    if action == "exit":
        os._exit(3)
    if action == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
        time.sleep(10)
    if action == "systemexit":
        raise SystemExit(4)
    return 255 - image


def im2im_observe(tup):
    """like im2im_faulty, but writes in $MC_OBS/<name> which jobs have a lock file"""
    path, image = tup
    obs = Path(os.environ["MC_OBS"])
    res = Path(os.environ["MC_RES"])
    locks = sorted(p.parent.name for p in res.glob("job_*/is_running.lock"))
    (obs / os.path.basename(str(path))).write_text("\n".join(locks))
    return im2im_faulty(tup)


def preload_modules():
    import importlib

    with quiet():
        for name in (
            "topologies.base", "topologies.piv", "topologies.bos", "topologies.preproc",
            "topologies.image2image", "topologies.mean", "topologies.optical_flow",
            "topologies.surface_tracking", "topologies.log", "executors.base",
        ):
            try:
                importlib.import_module("fluidimage." + name)
            except Exception:
                pass
