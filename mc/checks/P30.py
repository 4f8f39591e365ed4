"""P30: tomographic reconstruction"""
import contextlib
import io
import itertools
import os
import re
from pathlib import Path

import numpy as np

from ..common import check, quiet, tmpdir

LEVEL = "exploration"
RULE = (
    "Synthetic calibrated pinhole cameras: all the shapes of volumes up to the bound x limits, sequences of cameras (1 to 3, all orders) x "
    "chunks x in memory or in files, images with a different value for each pixel (a voxel identifies the pixel it comes from). Non trivial: "
    "at least two voxels in two directions."
)
ASSUMPTIONS = ["strictly positive images (zero pixels are ignored by the nearest neighbour interpolation)", "voxels whose projection is close to the limit between two pixels are not decided"]

SHAPE = (60, 70)


def camera(k):
    """rotation vector, translation, matrix"""
    r = np.array([(0.1, 0.2, 0.05), (-0.15, 0.1, 0.0), (0.05, -0.25, -0.1)][k])
    t = np.array([(0.3, -0.2, 40.0), (0.0, 0.5, 45.0), (-0.4, 0.1, 38.0)][k])
    m = np.array([[120.0 + 5 * k, 0, 34.0], [0, 110.0, 30.0], [0, 0, 1]])
    kc = np.array([0.02 * k, 0, 0, 0, 0])
    return r, t, m, kc


def rotation(r):
    a = np.linalg.norm(r)
    k = r / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def project(k, p):
    """the translation contains the position of the plane z (target moved along z)"""
    r, t, m, kc = camera(k)
    q = rotation(r) @ p + t + TZ * p[2]
    x, y = q[0] / q[2], q[1] / q[2]
    d = 1 + kc[0] * (x * x + y * y)
    return m[0, 0] * x * d + m[0, 2], m[1, 1] * y * d + m[1, 2]


TZ = np.array([0.02, -0.01, 0.3])


def make_cameras(d):
    from fluidimage.calibration.calib_cv import CalibCV

    paths = []
    zs = [-6.0, 0.0, 6.0]
    for k in range(3):
        r, t, m, kc = camera(k)
        path = Path(d) / f"cam{k}.h5"
        c = CalibCV(path)
        rv = [r.reshape(3, 1)] * 3
        tv = [(t + TZ * z).reshape(3, 1) for z in zs]
        with quiet():
            c.save(zs, 0.1, m, kc.reshape(5, 1), rv, np.array(tv))
        paths.append(str(path))
    return paths


def image(k, frame):
    ny, nx = SHAPE
    return (10.0 + np.arange(ny * nx).reshape(SHAPE) * (k + 1) + 3 * frame).astype(np.float32)


def save_image(path, a):
    from fluiddyn.io.image import imsave

    path.parent.mkdir(exist_ok=True)
    imsave(str(path), a)
    found = list(path.parent.glob(path.stem + "*"))
    check(len(found) == 1, f"{found}", "harness")
    return found[0]


def voxels(lims, nb):
    axes = [np.linspace(a, b, n) for (a, b), n in zip(lims, nb)]
    return axes, [(x, y, z) for z in axes[2] for y in axes[1] for x in axes[0]]


def case_project(rec, nb, lims):
    """positions of the voxels in the images"""
    from fluidimage.reconstruct.tomo import TomoMLOSCV

    with tmpdir() as d:
        paths = make_cameras(d)
        with quiet():
            tomo = TomoMLOSCV(*paths, xlims=lims[0], ylims=lims[1], zlims=lims[2], nb_voxels=nb)
        check(list(tomo.cams) == ["cam0", "cam1", "cam2"], f"{tomo.cams}", "cams")
        a = tomo.array
        axes, vox = voxels(lims, nb)
        what = f"volume {lims} with {nb} voxels"
        check((a.nx, a.ny, a.nz) == nb and all(np.allclose(p, q) for p, q in zip((a.xs, a.ys, a.zs), axes)), f"{what}: axes", "grid")
        got = [(a.xmin, a.xmax), (a.ymin, a.ymax), (a.zmin, a.zmax)]
        check(got == [tuple(p) for p in lims], lambda: f"{what}: limits {got}", "grid")
        check(a.grid.shape == (len(vox), 3) and np.allclose(a.grid, vox), lambda: f"{what}: voxels {a.grid[:5]}", "grid")
        for k, name in enumerate(tomo.cams):
            with quiet():
                pix = tomo.phys2pix(name)
            exp = np.array([project(k, np.array(p)) for p in vox])
            got = np.stack([pix["x"], pix["y"]], axis=1)
            check(got.shape == exp.shape and np.allclose(got, exp, atol=1e-6), lambda: f"{what} {name}: pixels\n{got[:6]}\ninstead of\n{exp[:6]}", "project")
            rec.count("evaluations")
            rec.nontrivial((nb, lims, name))
    rec.sample(what)


def case_reconstruct(rec, nb, cams, chunks, mode, threshold):
    """geometric mean of the intensities seen by the cameras; frames are independent"""
    from fluidimage.data_objects.tomo import ArrayTomoCV
    from fluidimage.reconstruct.tomo import TomoMLOSCV

    lims = ((-8, 8), (-7, 7), (-4, 5))
    axes, vox = voxels(lims, nb)
    n = len(cams)
    what = f"reconstruction {nb} cameras {cams} chunks {chunks} {mode} threshold {threshold}"
    with tmpdir() as d:
        all_paths = make_cameras(d)
        with quiet():
            tomo = TomoMLOSCV(*[all_paths[k] for k in cams], xlims=lims[0], ylims=lims[1], zlims=lims[2], nb_voxels=nb)
        out = Path(d) / "tomo"
        for frame in range(2):
            exp = np.ones(len(vox))
            sure = np.ones(len(vox), dtype=bool)
            with quiet():
                if mode == "memory" and frame:
                    tomo.array.clear()
            for k in cams:
                path = save_image(Path(d) / f"cam{k}.pre" / f"im{frame}.tif", image(k, frame))
                with quiet():
                    pix = tomo.phys2pix(f"cam{k}")
                    if mode == "file":
                        tomo.array.init_paths(str(path), None if frame else str(out))
                    tomo.reconstruct(pix, str(path), threshold, chunks=chunks, save=mode == "file")
                x, y = pix["x"], pix["y"]
                ix, iy = np.round(x).astype(int), np.round(y).astype(int)
                check((ix >= 0).all() and (ix < SHAPE[1]).all() and (iy >= 0).all() and (iy < SHAPE[0]).all(), "harness", "harness")
                sure &= (abs(x - ix) < 0.49) & (abs(y - iy) < 0.49)
                exp *= image(k, frame)[iy, ix].astype(float) ** (1.0 / n)
            if mode == "file":
                with quiet():
                    files = sorted(p.name for p in out.glob("*"))
                    check(files == [f"im{i}.h5" for i in range(frame + 1)], lambda: f"{what}: files {files}", "files")
                    array = ArrayTomoCV(h5file_path=str(out / f"im{frame}.h5"))
                got = array.I
                check((array.nx, array.ny, array.nz) == nb, f"{what}: shape of the volume loaded", "files")
                check(np.allclose(array.grid, vox), f"{what}: grid of the volume loaded", "files")
            else:
                got = np.asarray(tomo.array.I)
            check(sure.mean() > 0.5, "harness", "harness")
            check(got.shape == exp.shape and np.allclose(got[sure], exp[sure], rtol=1e-5), lambda: f"{what} frame {frame}: intensities {got[:5]} instead of {exp[:5]}", "intensity")
            rec.count("evaluations")
            rec.nontrivial((what, frame))
    rec.sample(what)


def case_array(rec, nb):
    """description, slices, clear"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from fluidimage.data_objects import tomo as mod

    lims = ((-1, 1), (0, 3), (2, 5))
    nx, ny, nz = nb
    for cls in (mod.ArrayTomoCV, mod.ArrayTomo):
        what = f"{cls.__name__} {nb}"
        with tmpdir() as d:
            with quiet():
                a = cls(*lims, nb, image_path=str(Path(d) / "images" / "im3.tif"))
            check(Path(a.h5file_path) == Path(d) / "tomo" / "im3.h5", lambda: f"{what}: path {a.h5file_path}", "path")
            check(np.all(np.asarray(a.I) == 1), f"{what}: initial intensities", "init")
            value = lambda i, j, k: 1.0 + i + 10 * j + 100 * k
            if cls is mod.ArrayTomoCV:
                a.I = np.array([value(i, j, k) for k in range(nz) for j in range(ny) for i in range(nx)])
            else:
                check(a.X.shape == a.Y.shape == a.Z.shape == a.I.shape and a.I.size == nx * ny * nz, f"{what}: shapes", "grid")
                ix = [np.argmin(abs(np.asarray(g)[..., None] - axis), axis=-1) for g, axis in ((a.X, a.xs), (a.Y, a.ys), (a.Z, a.zs))]
                a.I = value(*ix)
            with quiet():
                a.save()
                b = cls(h5file_path=a.h5file_path)
            check(np.array_equal(a.I, b.I) and all(np.array_equal(getattr(a, q), getattr(b, q)) for q in ("xs", "ys", "zs", "nx", "ny", "nz")), f"{what}: loaded", "files")
            got = [(b.xmin, b.xmax), (b.ymin, b.ymax), (b.zmin, b.zmax)]
            check(got == list(lims) or min(nb) == 1 and all(g[0] == p[0] for g, p in zip(got, lims)), lambda: f"{what}: limits {got} of the volume loaded", "files")
            check(tuple(b.nb_voxels) == nb, f"{what}: loaded", "files")
            for vmin, vmax in itertools.product((None, 1.0, 12.5, 1e6), repeat=2):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    b.describe(vmin, vmax)
                text = out.getvalue()
                for v, word, n in ((vmin, "below", None if vmin is None else int((a.I < vmin).sum())), (vmax, "above", None if vmax is None else int((a.I > vmax).sum()))):
                    found = re.findall(rf"points {word} [^=]*= *(\d+)", text)
                    check(found == ([] if v is None else [str(n)]), lambda: f"{what}: describe({vmin}, {vmax}): {text}", "describe")
                rec.count("evaluations")
            if cls is mod.ArrayTomoCV:
                shown = []
                old = plt.pause
                plt.pause = lambda *_: shown.append(np.array(plt.gca().images[0].get_array()))
                try:
                    with quiet():
                        for start, stop in ((0, None), (nz - 1, None), (0, nz), (0, 1)):
                            shown.clear()
                            b.plot_slices(start, stop)
                            if not shown or (stop or nz) == start + 1:
                                shown[:0] = [np.array(plt.gca().images[0].get_array())]
                                ks = [start]
                            else:
                                ks = list(range(start + 1, stop or nz))
                            check(len(shown) == len(ks), f"{what}: {len(shown)} slices shown for {start, stop}", "slices")
                            for k, s in zip(ks, shown):
                                exp = np.array([[value(i, j, k) for j in range(ny)] for i in range(nx)])
                                check(np.array_equal(s, exp) or np.array_equal(s, exp.T), lambda: f"{what}: slice {k} shown:\n{s}\ninstead of\n{exp}", "slices")
                            plt.close("all")
                            rec.count("evaluations")
                finally:
                    plt.pause = old
            with quiet():
                b.clear()
            check(np.all(b.I == 1) and not os.path.exists(a.h5file_path), f"{what}: clear", "clear")
            rec.nontrivial(what)


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    out = []
    m = (2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5)
    limits = (((-8, 8), (-7, 7), (-4, 5)), ((0, 5), (1, 2), (-6, -1)))
    for nb in itertools.product(m, repeat=3):
        for lims in limits:
            out.append(("project", nb, lims))
        out.append(("array", nb))
    seqs = [s for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]
    for nb, cams, chunks, mode in itertools.product(((4, 3, 2), (2, 3, 5)), seqs, (5, 100), ("memory", "file")):
        out.append(("reconstruct", nb, cams, chunks, mode, None if chunks == 5 else 1.0))
    if not ctx.quick:
        for cams, mode in itertools.product(seqs, ("memory", "file")):
            for nb, chunks in itertools.product(((3, 3, 3), (5, 4, 6)), (None, 7)):
                out.append(("reconstruct", nb, cams, chunks, mode, None))
    ctx.pmap(case, out, timeout=300, chunk=2)
