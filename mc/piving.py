"""Works (PIV, BOS, optical flow, preprocessing, surface tracking) used as pure functions"""

import copy
import pickle
from pathlib import Path

import numpy as np

from .common import quiet
from .data import make_images, write_png


def particles(shape, seed, shift=(0, 0), density=0.06, size=1.2, amp=200):
    """image of Gaussian particles, moved by shift = (dy, dx)"""
    rng = np.random.RandomState(seed)
    ny, nx = shape
    n = max(6, int(density * (ny + 8) * (nx + 8)))
    y0 = rng.uniform(-4, ny + 4, n)
    x0 = rng.uniform(-4, nx + 4, n)
    a = rng.uniform(0.5, 1, n)
    y, x = np.mgrid[0:ny, 0:nx]
    im = np.zeros(shape)
    for yy, xx, aa in zip(y0 + shift[0], x0 + shift[1], a):
        im += aa * np.exp(-((x - xx) ** 2 + (y - yy) ** 2) / size**2)
    return np.clip(im * amp, 0, 255)


def arrays(obj, path="", out=None, depth=0, skip=("couple", "params", "serie", "figure")):
    """flatten an object -> {path: array / scalar / str}"""
    if out is None:
        out = {}
    if depth > 8:
        return out
    if isinstance(obj, np.ndarray):
        out[path] = obj
    elif isinstance(obj, dict):
        out[path + ".keys"] = sorted(map(repr, obj))
        for k, v in obj.items():
            arrays(v, f"{path}[{k!r}]", out, depth + 1, skip)
    elif isinstance(obj, (list, tuple)):
        out[path + ".len"] = len(obj)
        for i, v in enumerate(obj):
            arrays(v, f"{path}[{i}]", out, depth + 1, skip)
    elif obj is None or isinstance(obj, (str, bytes, bool, int, float, complex, np.generic)):
        out[path] = obj
    elif isinstance(obj, BaseException):
        out[path] = f"{type(obj).__name__}: {obj}"
    elif hasattr(obj, "__dict__"):
        for k, v in sorted(vars(obj).items()):
            if k in skip:
                continue
            arrays(v, f"{path}.{k}", out, depth + 1, skip)
    return out


def frozen(obj):
    """exact image of an object (to see later if it has been modified)"""
    return {
        k: (v.dtype.str, v.shape, v.tobytes()) if isinstance(v, np.ndarray) else repr(v)
        for k, v in arrays(obj).items()
    }


def differences(a, b, rtol=1e-3, atol=2e-3):
    """first difference between two flattened objects (None if equal within rounding errors)"""
    if set(a) != set(b):
        return f"attributes only in one of the results: {sorted(set(a) ^ set(b))[:8]}"
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
                return f"{k}: shape / type {x.shape} {x.dtype} != {y.shape} {y.dtype}"
            if x.dtype.kind in "fc":
                scale = max(1.0, float(np.nanmax(np.abs(x))) if x.size and not np.all(np.isnan(x)) else 1.0)
                if not np.allclose(x, y, rtol=rtol, atol=atol * scale, equal_nan=True):
                    ok = np.isclose(x, y, rtol=rtol, atol=atol * scale, equal_nan=True)
                    i = tuple(int(j) for j in np.argwhere(~ok)[0])
                    return f"{k}: {np.count_nonzero(~ok)} different values, for example at {i}: {x[i]} != {y[i]}"
            elif not np.array_equal(x, y):
                return f"{k}: {x!r} != {y!r}"[:500]
        elif isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating)):
            if not np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
                return f"{k}: {x} != {y}"
        elif x != y:
            if isinstance(x, str) and isinstance(y, str) and "diff = " in x:
                if x.split("diff = ")[0] == y.split("diff = ")[0]:
                    continue
            return f"{k}: {x!r} != {y!r}"[:500]
    return None


# ----------------------------------------------------------------- works

SHAPE = (24, 28)


def piv_params(crop=8, number=1, **kw):
    from fluidimage.piv import Work

    params = Work.create_default_params()
    params.piv0.shape_crop_im0 = crop
    params.multipass.number = number
    params.multipass.use_tps = False
    for k, v in kw.items():
        obj = params
        parts = k.split("__")
        for p in parts[:-1]:
            obj = getattr(obj, p)
        setattr(obj, parts[-1], v)
    return params


PIV_CONFIGS = {
    "fftw": dict(),
    "npfft-2": dict(number=2, crop=12, multipass__coeff_zoom=[2], piv0__method_correl="np.fft"),
    "fftw-2-tps": dict(number=2, crop=12, multipass__use_tps="last", multipass__subdom_size=20),
    "fftw-3-tps": dict(number=3, crop=16, multipass__use_tps=True, multipass__coeff_zoom=[1, 2], multipass__subdom_size=8),
    "signal": dict(piv0__method_correl="scipy.signal"),
    "signal-small": dict(piv0__method_correl="scipy.signal", piv0__shape_crop_im1=6),
    "ndimage": dict(piv0__method_correl="scipy.ndimage"),
    "pythran": dict(piv0__method_correl="pythran"),
    "peaks": dict(number=2, crop=12, piv0__nb_peaks_to_search=3, piv0__particle_radius=2, piv0__displacement_max="50%"),
    "mask": dict(number=2, crop=12, mask__strcrop="2:22, 3:", piv0__grid__overlap=0.25),
    "mask-fix": dict(mask__strcrop=":, 1:27", fix__threshold_diff_neighbour=1.0, fix__displacement_max=3, fix__correl_min=0.4),
    "centroid": dict(piv0__method_subpix="centroid", piv0__nsubpix=1),
    "2d_gaussian": dict(piv0__method_subpix="2d_gaussian", piv0__nsubpix=2),
    "rect": dict(crop=(8, 12), number=2, multipass__coeff_zoom=2, piv0__method_correl="np.fft"),
}


def couple_arrays(name, shape=None):
    """alphabet of the couples of images"""
    shape = shape or SHAPE
    if name == "a":
        return tuple(particles(shape, 1, s).astype(np.uint8) for s in ((0, 0), (1, -1)))
    if name == "b":
        return tuple((200 * particles(shape, 2, s)).astype(np.uint16) for s in ((0, 0), (-1, 1.6)))
    if name == "f":
        return tuple(particles(shape, 3, s) - 50.0 for s in ((0, 0), (0.4, 2)))
    if name == "c":  # degenerate
        return np.full(shape, 7, np.uint8), np.full(shape, 7, np.uint8)
    if name == "n":  # not correlated
        return particles(shape, 4).astype(np.uint8), particles(shape, 5).astype(np.uint8)
    if name == "s":  # another size
        return couple_arrays("a", (shape[0] + 6, shape[1] - 4))
    raise ValueError(name)


class PIVKind:
    alphabet = "abfcn"

    def __init__(self, config, **other):
        self.config = config
        self.other = other

    def make(self):
        from fluidimage.works.piv import WorkPIV

        with quiet():
            return WorkPIV(piv_params(**(PIV_CONFIGS[self.config] | self.other)))

    def input(self, letter):
        ims = couple_arrays(letter)
        return {"arrays": ims, "names": (f"{letter}0.png", f"{letter}1.png")}

    def compute(self, work, inp):
        """-> result object or exception"""
        with quiet():
            return self.compute_raw(work, inp)

    def compute_raw(self, work, inp):
        # (the caller silences the standard streams)
        try:
            return work.calcul(inp)
        except Exception as err:
            return err


class BOSKind(PIVKind):
    alphabet = "abcn"

    def __init__(self, config, path):
        self.config = config
        self.path = Path(path)
        (self.path / "images").mkdir(parents=True, exist_ok=True)
        for letter in "abcn":
            write_png(self.path / "images" / f"im{letter}.png", couple_arrays(letter)[0])

    def make(self):
        from fluidimage.works.bos import WorkBOS

        params = WorkBOS.create_default_params()
        params.images.path = str(self.path / "images")
        params.reference = "ima.png"
        params.piv0.shape_crop_im0 = 8
        params.multipass.use_tps = False
        if self.config == "mask":
            params.mask.strcrop = "2:22, 3:"
        with quiet():
            return WorkBOS(params)

    def input(self, letter):
        return couple_arrays(letter)[1], f"im{letter}.png"


class FlowKind(PIVKind):
    alphabet = "abdn"

    def __init__(self, config):
        self.config = config

    def make(self):
        from fluidimage.works.optical_flow import WorkOpticalFlow

        params = WorkOpticalFlow.create_default_params()
        params.optical_flow.winSize = (8, 8)
        params.optical_flow.maxLevel = 1
        params.features.blockSize = 4
        if self.config == "mask":
            params.mask.strcrop = "2:40, 3:"
            params.filters.displacement_max = 2.5
        return WorkOpticalFlow(params)

    def input(self, letter):
        if letter == "b":
            ims = tuple(particles((44, 48), 2, s).astype(np.uint8) for s in ((0, 0), (-1, 1.6)))
        elif letter == "d":  # half of the features lost
            im0, im1 = couple_arrays("a", (44, 48))
            im1 = im1.copy()
            im1[:, 24:] = 0
            ims = im0, im1
        else:
            ims = couple_arrays(letter, (44, 48))
        return {"arrays": ims, "names": (f"{letter}0.png", f"{letter}1.png")}


class PreprocKind(PIVKind):
    alphabet = "abd"
    def __init__(self, config, path, backend="python"):
        self.config = config
        self.backend = backend
        self.path = Path(path)
        for letter in self.alphabet:
            d = self.path / letter
            if not d.exists():
                make_images(d, ["im0.png", "im1.png", "im2.png"], shape=(12, 14), func=self.image(letter))

    @staticmethod
    def image(letter):
        def func(i, shape=None):
            im = particles((12, 14), i, (0, 0))
            if letter == "b":
                return (im // 2 + 20).astype(np.uint8)
            if letter == "d":
                return np.full((12, 14), 9 * i + 5, np.uint8)
            return im.astype(np.uint8)

        return func

    def make(self):
        from fluidimage.works.preproc import WorkPreproc

        params = WorkPreproc.create_default_params(self.backend)
        tools = params.tools
        used = False
        for name in self.config.split("+"):
            if hasattr(tools, name):
                getattr(tools, name).enable = True
                used = True
        if not used:
            return None
        params.series.path = str(self.path / "a")
        with quiet():
            return WorkPreproc(params)

    def input(self, letter):
        from fluiddyn.util.serieofarrays import SeriesOfArrays

        return SeriesOfArrays(str(self.path / letter), "i:i+3").get_serie_from_index(0)

    def compute_raw(self, work, inp):
        res = super().compute_raw(work, inp)
        return res if isinstance(res, BaseException) else dict(res.data)


class SurfaceKind(PIVKind):
    alphabet = "abd"

    def __init__(self, config, path):
        self.config = config
        self.path = Path(path)
        if not (self.path / "ref").exists():
            make_images(self.path / "ref", ["ref0.png", "ref1.png"], shape=(32, 64), func=lambda i, shape=None: self.frame("r", i))
            make_images(self.path / "images", ["im0.png"], shape=(32, 64), func=lambda i, shape=None: self.frame("a", i))

    @staticmethod
    def frame(letter, i=0):
        y, x = np.mgrid[0:32, 0:64]
        phase = {"r": 0.0, "a": 0.5 * np.sin(y / 9), "b": 3 * np.sin(x / 20) + i, "d": 6 + 0.05 * x}[letter]
        im = 400 + 300 * np.cos(2 * np.pi * x / 8 + phase)
        if letter == "d":
            im[:, 60:] = 10
            im[:, :3] = 10
        return np.round(im).astype(np.uint16)

    def make(self):
        from fluidimage.topologies.surface_tracking import TopologySurfaceTracking
        from fluidimage.works.surface_tracking import WorkSurfaceTracking

        params = TopologySurfaceTracking.create_default_params()
        params.images.path = str(self.path / "images")
        params.images.path_ref = str(self.path / "ref")
        p = params.surface_tracking
        p.xmin, p.xmax, p.ymin, p.ymax = 2, 62, 1, 31
        p.sur = 4
        p.borders = 3
        p.crop_edge = "crop" in self.config
        p.correct_height = "height" in self.config
        p.correct_pos = "pos" in self.config
        p.red_factor = 2 if "red" in self.config else 1
        with quiet():
            return WorkSurfaceTracking(params)

    def input(self, letter):
        return self.frame(letter)

    def compute_raw(self, work, inp):
        out = []
        try:
            angle_shape = work.process_frame_func(inp)
            out.append(copy.deepcopy(angle_shape))
            other = (angle_shape[0] + 7.0, angle_shape[1])
            corrected = work.correctcouple((angle_shape, other))
            out.append(copy.deepcopy(corrected))
            height = work.calculheight_func(corrected)
            out.append(height)
            if "crop" in self.config:
                out.append(work.set_borders_zero_func(height))
        except Exception as err:
            return err
        return out


def pickled(inp):
    try:
        return pickle.dumps(inp)
    except Exception:
        return repr(inp)
