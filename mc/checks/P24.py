"""P24: Fourier transforms and spectra of fields"""
import itertools

import numpy as np

from ..common import check, quiet

LEVEL = "exploration"
RULE = (
    "For every number of points up to the bound, every axis and step: all the basis signals (a Dirac at each point: by linearity any "
    "signal for the transform) and all the Fourier modes with two phases (energy at the right wave number), compared with an explicit sum; "
    "1d and 2d, functions and methods of the fields and arrays of fields. Non trivial: at least two points in the transformed direction."
)
ASSUMPTIONS = ["regular grids; at least two points in the transformed directions"]


def dft(n, dx):
    """matrix of the Fourier coefficients for the sorted wave numbers"""
    ks = np.arange(n) - n // 2
    j = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(ks, j) / n) / n, 2 * np.pi * ks / (n * dx)


def basis(shape):
    size = int(np.prod(shape))
    for i in range(size):
        a = np.zeros(size)
        a[i] = 2.0
        yield f"dirac {i}", a.reshape(shape)


def modes1(n, rest, axis):
    for k in range(n // 2 + 1):
        for phase in (0.0, 0.7):
            s = np.cos(2 * np.pi * k * np.arange(n) / n + phase) + 0.3
            shape = list(rest)
            shape.insert(axis, n)
            sh = [1] * len(shape)
            sh[axis] = n
            amp = np.arange(1, 1 + int(np.prod(rest)), dtype=float).reshape([1 if i == axis else v for i, v in enumerate(shape)])
            yield f"mode {k} phase {phase}", s.reshape(sh) * amp


def verify1(rec, what, res, x_n, dx, signal, axis):
    fft, om, psd = res
    F, ks = dft(x_n, dx)
    exp = np.moveaxis(np.tensordot(F, signal, axes=(1, axis)), 0, axis)
    check(np.shape(om) == (x_n,) and np.allclose(om, ks), lambda: f"{what}: wave numbers {om} instead of {ks}", "k")
    check(fft.shape == exp.shape and np.allclose(fft, exp), lambda: f"{what}: Fourier transform\n{fft}\ninstead of\n{exp}", "fft")
    dk = 2 * np.pi / (x_n * dx)
    check(np.allclose(psd, 0.5 * abs(exp) ** 2 / dk), lambda: f"{what}: spectrum {psd}", "psd")
    energy = 0.5 * (signal**2).mean(axis=axis)
    check(np.allclose(psd.sum(axis=axis) * dk, energy), lambda: f"{what}: energy of the spectrum {psd.sum(axis=axis) * dk} instead of {energy}", "energy")
    rec.count("evaluations")
    rec.nontrivial(what)


def verify2(rec, what, res, n, d, signal, axes):
    fft, kx, ky, psd = res
    (ny, nx), (dy, dx) = n, d
    Fy, kys = dft(ny, dy)
    Fx, kxs = dft(nx, dx)
    exp = np.moveaxis(np.tensordot(Fy, signal, axes=(1, axes[0])), 0, axes[0])
    exp = np.moveaxis(np.tensordot(Fx, exp, axes=(1, axes[1])), 0, axes[1])
    check(np.shape(kx) == (nx,) and np.allclose(kx, kxs), lambda: f"{what}: kx {kx} instead of {kxs}", "k")
    check(np.shape(ky) == (ny,) and np.allclose(ky, kys), lambda: f"{what}: ky {ky} instead of {kys}", "k")
    check(fft.shape == exp.shape and np.allclose(fft, exp), lambda: f"{what}: Fourier transform\n{fft}\ninstead of\n{exp}", "fft")
    dk = (2 * np.pi) ** 2 / (nx * dx * ny * dy)
    check(np.allclose(psd, 0.5 * abs(exp) ** 2 / dk), lambda: f"{what}: spectrum {psd}", "psd")
    energy = 0.5 * (signal**2).mean(axis=axes)
    check(np.allclose(psd.sum(axis=axes) * dk, energy), lambda: f"{what}: energy {psd.sum(axis=axes) * dk} instead of {energy}", "energy")
    rec.count("evaluations")
    rec.nontrivial(what)


def case_one(rec, n, dx):
    from fluidimage.postproc.util import compute_1dspectrum

    x = 3.0 + dx * np.arange(n)
    for rest, axis in (((), 0), ((2,), 0), ((3,), 1), ((2, 3), 0), ((2, 3), 1), ((2, 3), 2), ((3,), -1)):
        shape = list(rest)
        ax = axis % (len(rest) + 1)
        shape.insert(ax, n)
        for name, s in itertools.chain(basis(shape), modes1(n, rest, ax)):
            what = f"compute_1dspectrum n={n} dx={dx} shape {tuple(shape)} axis {axis} {name}"
            before = s.copy()
            verify1(rec, what, compute_1dspectrum(x, s, axis=axis), n, dx, s, ax)
            check(np.array_equal(before, s), f"{what}: signal modified", "modified")
            if not rest:
                verify1(rec, what + " (default axis)", compute_1dspectrum(x, s), n, dx, s, 0)
    rec.sample(what)


def case_two(rec, ny, nx, dy, dx):
    from fluidimage.postproc.util import compute_2dspectrum

    x, y = 1.0 + dx * np.arange(nx), -2 + dy * np.arange(ny)
    grids = ((x, y), tuple(np.meshgrid(x, y)))
    for nt in (None, 2):
        shape = (ny, nx) if nt is None else (nt, ny, nx)
        axes = (0, 1) if nt is None else (1, 2)
        signals = list(basis(shape))
        j, i = np.mgrid[0:ny, 0:nx]
        for ky in range(-(ny // 2), ny // 2 + 1):
            for kx in range(nx // 2 + 1):
                s = np.cos(2 * np.pi * (kx * i / nx + ky * j / ny) + 0.3) + 0.1
                signals.append((f"mode {ky, kx}", s if nt is None else np.stack([s, 2 * s])))
        for g, (X, Y) in enumerate(grids):
            for name, s in signals:
                what = f"compute_2dspectrum {ny, nx} steps {dy, dx} nt={nt} grid {X.ndim}d {name}"
                verify2(rec, what, compute_2dspectrum(X, Y, s, axes=axes), (ny, nx), (dy, dx), s, axes)
                if nt is not None and g == 0:
                    verify2(rec, what + " (default axes)", compute_2dspectrum(X, Y, s), (ny, nx), (dy, dx), s, axes)
    rec.sample(what)


def case_fields(rec, ny, nx, dy, dx):
    from fluidimage.postproc.vector_field import ArrayOfVectorFieldsOnGrid, VectorFieldOnGrid

    x, y = 1.0 + dx * np.arange(nx), -2 + dy * np.arange(ny)
    other = np.sin(1.0 + np.arange(ny * nx) ** 1.5).reshape(ny, nx)
    for name, s in basis((ny, nx)):
        for order in (0, 1):
            vx, vy = (s, other) if order == 0 else (other, s)
            f = VectorFieldOnGrid(x, y, None, vx.copy(), vy.copy())
            what = f"field {ny, nx} steps {dy, dx} {name} order {order}"
            with quiet():
                for r in (f.compute_spatial_fft(), f.compute_spatial_fft(axes=(0, 1))):
                    verify2(rec, f"{what} vx", (r[0], r[2], r[3], r[4]), (ny, nx), (dy, dx), vx, (0, 1))
                    verify2(rec, f"{what} vy", (r[1], r[2], r[3], r[5]), (ny, nx), (dy, dx), vy, (0, 1))
                for axis, n, d in ((0, ny, dy), (1, nx, dx)):
                    r = f.compute_spatial_fft(axes=axis)
                    k = r[3] if axis == 0 else r[2]
                    pos, coord = (r[2], x) if axis == 0 else (r[3], y)
                    check(np.array_equal(pos, coord), lambda: f"{what} axis {axis}: coordinates {pos}", "k")
                    verify1(rec, f"{what} vx axis {axis}", (r[0], k, r[4]), n, d, vx, axis)
                    verify1(rec, f"{what} vy axis {axis}", (r[1], k, r[5]), n, d, vy, axis)
            check(np.array_equal(f.vx, vx) and np.array_equal(f.vy, vy), f"{what}: modified", "modified")
    for nt, dt in itertools.product((2, 3, 4), (0.5, 2.0)):
        for it in range(nt):
            fields = [VectorFieldOnGrid(x, y, None, other * (i + 1) + (3.0 if i == it else 0), other**2 - (i == it)) for i in range(nt)]
            arr = ArrayOfVectorFieldsOnGrid(fields)
            try:
                arr.compute_temporal_fft()
            except RuntimeError:
                pass
            else:
                check(False, "compute_temporal_fft without time step", "time")
            arr.set_timestep(dt)
            fx, fy, om, px, py = arr.compute_temporal_fft()
            what = f"temporal nt={nt} dt={dt} {it} {ny, nx}"
            verify1(rec, what + " vx", (fx, om, px), nt, dt, np.stack([f.vx for f in fields]), 0)
            verify1(rec, what + " vy", (fy, om, py), nt, dt, np.stack([f.vy for f in fields]), 0)
    rec.sample(what)


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    nmax = 9 if ctx.quick else 24
    out = [("one", n, dx) for n in range(2, nmax + 1) for dx in (0.25, 1.0, 3.0)]
    m = 6 if ctx.quick else 10
    steps = ((1.0, 1.0), (0.5, 2.0)) if ctx.quick else ((1.0, 1.0), (0.5, 2.0), (3.0, 0.1))
    out += [("two", ny, nx, *d) for ny, nx in itertools.product(range(2, m + 1), repeat=2) for d in steps]
    out += [("fields", ny, nx, *d) for ny, nx in itertools.product(range(2, 5 if ctx.quick else 8), repeat=2) for d in steps]
    ctx.pmap(case, out, timeout=600, chunk=2)
