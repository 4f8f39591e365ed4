"""P26: calibrations: positions and displacements in physical units"""
import itertools
from pathlib import Path

import numpy as np

from ..common import check, quiet, tmpdir

LEVEL = "exploration"
RULE = (
    "Synthetic cameras whose geometry is known exactly. Simple calibration: all the couples of points around each point x aspect ratios x "
    "origins. Direct calibration: parallel and pinhole cameras x sets of levels (any order, levels which do not cover all the pixels) x "
    "all the nodes and pixels x planes x basis displacements. Stereo: all the couples of cameras of the list x planes x basis "
    "displacements (the reconstruction is linear). Tsai: cameras x slices (horizontal, tilted) x refraction x pixels. Non trivial: "
    "everything but identical points."
)
ASSUMPTIONS = ["no distortion for the inversion of the Tsai camera (the code only inverts it approximately)"]


# ---------------------------------------------------------------- simple


def case_simple(rec, aspect, distance):
    from fluidimage.calibration import calib2d_simple

    p0 = (3, 5)
    for dy, dx in itertools.product(range(-4, 5), repeat=2):
        if dy == dx == 0:
            continue
        for origin, phys in (((0, 0), (0.0, 0.0)), ((7, 2), (0.5, -3.0)), (p0, (10.0, 20.0))):
            p1 = (p0[0] + dy, p0[1] + dx)
            c = calib2d_simple.Calibration2DSimple(
                p0, p1, distance, aspect_ratio_pixel=aspect, shape_image=(20, 30), point_origin=origin, orig_phys=phys
            )
            what = f"Calibration2DSimple points {p0} {p1} distance {distance} aspect {aspect} origin {origin} -> {phys}"
            (x0, y0), (x1, y1) = c.pix2phys(p0[1], p0[0]), c.pix2phys(p1[1], p1[0])
            got = np.hypot(x1 - x0, y1 - y0)
            check(np.isclose(got, distance), lambda: f"{what}: distance between the points {got}", "simple")
            xo, yo = c.pix2phys(origin[1], origin[0])
            check(np.isclose(xo, phys[1]) and np.isclose(yo, phys[0]), lambda: f"{what}: origin at {yo, xo}", "simple")
            xs, ys = np.array([4.0, 4, 5, 9.5]), np.array([6.0, 7, 6, 1.25])
            before = xs.copy(), ys.copy()
            px, py = c.pix2phys(xs, ys)
            sx, sy = px[2] - px[0], py[1] - py[0]
            check(sx > 0 and np.isclose(sy / sx, aspect), lambda: f"{what}: size of a pixel {sy, sx}", "simple")
            check(np.allclose(px, phys[1] + sx * (xs - origin[1])) and np.allclose(py, phys[0] + sy * (ys - origin[0])), f"{what}: {px, py}", "simple")
            d = np.array([1.0, 0, -2, 0.5]), np.array([0.0, 1, 3, -0.25])
            qx, qy, ux, uy = c.displ2phys(xs, ys, *d)
            check(np.allclose(qx, px) and np.allclose(qy, py), f"{what}: positions of displ2phys", "simple")
            ax, ay = c.pix2phys(xs + d[0], ys + d[1])
            check(np.allclose(ux, ax - px) and np.allclose(uy, ay - py), lambda: f"{what}: displacements {ux, uy} instead of {ax - px, ay - py}", "simple")
            check(np.array_equal(xs, before[0]) and np.array_equal(ys, before[1]), f"{what}: arguments modified", "modified")
            rec.count("evaluations")
            rec.nontrivial(what)
    rec.sample(what)


# ---------------------------------------------------------------- direct calibration


class Parallel:
    """orthographic camera looking along the direction n"""

    def __init__(self, tilt_x, tilt_y, roll=0.0, scale=1000.0, center=(32.0, 24.0)):
        ax, ay, r = np.radians([tilt_x, tilt_y, roll])
        rx = np.array([[1, 0, 0], [0, np.cos(ax), -np.sin(ax)], [0, np.sin(ax), np.cos(ax)]])
        ry = np.array([[np.cos(ay), 0, np.sin(ay)], [0, 1, 0], [-np.sin(ay), 0, np.cos(ay)]])
        rz = np.array([[np.cos(r), -np.sin(r), 0], [np.sin(r), np.cos(r), 0], [0, 0, 1]])
        self.base = (ry @ rx @ rz).T  # rows: directions of x and y of the image, axis
        self.scale, self.center = scale, np.array(center)

    def project(self, p):
        """p in meter: (..., 3) -> pixels (..., 2)"""
        return self.center + self.scale * (np.asarray(p) @ self.base[:2].T)

    def ray(self, ix, iy):
        x, y = (np.array([ix, iy]) - self.center) / self.scale
        return self.base[0] * x + self.base[1] * y, self.base[2]


class Pinhole(Parallel):
    distance = 0.4

    def project(self, p):
        q = np.asarray(p) @ self.base.T
        return self.center + self.scale * q[..., :2] * (self.distance / (self.distance - q[..., 2]))[..., None]

    def ray(self, ix, iy):
        x, y = (np.array([ix, iy]) - self.center) / self.scale
        eye = self.distance * self.base[2]
        d = self.base[0] * x + self.base[1] * y - eye
        return eye, -d / np.linalg.norm(d)


SHAPE = (48, 64)  # ny, nx


def on_plane(point, direction, plane):
    a, b, c, d = plane
    n = np.array([a, b, c])
    return point + direction * (-(n @ point + d) / (n @ direction))


def write_points(directory, camera, levels, partial=(), order=1):
    """one file per level, grid of points covering the image (a part of it for the partial levels)"""
    paths = []
    for il, z in enumerate(levels):
        lines = []
        if isinstance(camera, Pinhole):  # the interpolation is linear
            pixels = itertools.product(range(-6, 71, 4), range(-6, 55, 4))
        else:
            pixels = itertools.product((-30, 17, 64, 111), (-30, 14, 58, 90))
        for ix, iy in pixels:
            if il in partial and ix > 64:
                continue
            p = on_plane(*camera.ray(ix, iy), (0, 0, 1, -z))
            assert np.allclose(camera.project(p), (ix, iy))
            lines.append(f"{100 * p[0]:.12f} {100 * p[1]:.12f} {100 * z:.12f} {ix} {iy}")
        text = '<?xml version="1.0" ?>\n<tag><GeometryCalib><CoordUnit>cm</CoordUnit><SourceCalib>\n'
        for i, line in enumerate(lines[::order]):
            text += f'<PointCoord i="{i + 1}">{line}</PointCoord>\n'
        text += "</SourceCalib></GeometryCalib></tag>\n"
        path = Path(directory) / f"img_{il}.xml"
        path.write_text(text)
        paths.append(path)
    return paths


def on_ray(p, ray, tol=2e-5):
    d = np.asarray(p) - ray[0]
    return np.linalg.norm(d - (d @ ray[1]) * ray[1]) < tol


def make_calib(directory, camera, levels, nodes=(9, 7), partial=(), order=1, saved=False):
    from fluidimage.calibration import CalibDirect

    directory = Path(directory)
    directory.mkdir(exist_ok=True)
    write_points(directory, camera, levels, partial, order)
    with quiet():
        calib = CalibDirect(str(directory / "img*.xml"), SHAPE)
        calib.compute_interpolents()
        calib.compute_interpolents_pixel2line(*nodes)
    if saved:
        path = directory / "calib.npz"
        calib.save(path)
        with quiet():
            levels = calib.interp_levels
            calib = CalibDirect(path_file=path)
            calib.interp_levels = levels
    return calib


def planes():
    from fluidimage.calibration.util import get_plane_equation

    for z0, alpha, beta in ((0.0, 0, 0), (0.005, 0, 0), (0.002, 0.1, 0), (-0.003, 0, -0.15), (0.0, -0.2, 0)):
        plane = get_plane_equation(z0, alpha, beta)
        # the plane obtained from z=z0 by the rotations, passing by (0, 0, z0)
        n = np.array(plane[:3])
        ca, sa, cb, sb = np.cos(alpha), np.sin(alpha), np.cos(beta), np.sin(beta)
        ex, ey = np.array([cb, 0, -sb]), np.array([0, ca, sa])
        check(abs(n @ ex) < 1e-12 and abs(n @ ey) < 1e-12, f"get_plane_equation({z0}, {alpha}, {beta}): normal {n}", "plane")
        check(abs(n @ (0, 0, z0) + plane[3]) < 1e-12, f"get_plane_equation({z0}, {alpha}, {beta}): {plane}", "plane")
        yield (z0, alpha, beta), plane


CAMERAS = {
    "front": (0, 0),
    "right": (0, 25),
    "left": (0, -25),
    "up": (20, 0),
    "down": (-30, 0),
    "up-right": (20, 30),
    "down-left": (-15, -20),
    "up-left": (25, -35),
    "roll": (0, 20, 30),
    "roll2": (-20, 10, -60),
    "down-right": (-25, 40),
    "diag": (35, 35),
    "right2": (-30, 25),
    "right3": (40, 25),
    "left2": (25, -25),
}


def case_direct(rec, kind, name, levels, partial, order, saved):
    camera = {"parallel": Parallel, "pinhole": Pinhole}[kind](*CAMERAS[name])
    tol = 1e-6 if kind == "parallel" else 4e-4
    with tmpdir() as d:
        calib = make_calib(Path(d) / "c", camera, levels, partial=partial, order=order, saved=saved)
        label = f"direct calibration, {kind} camera {name}, levels {levels} (partial: {partial}) order {order} saved {saved}"
        for ix, iy in itertools.product((0, 8, 21, 40, 55, 63), (0, 6, 13, 24, 47)):
            line = calib.pixel2line(ix, iy)
            ray = camera.ray(ix, iy)
            what = f"{label} pixel {ix, iy}"
            nlev = len(levels) - (len(partial) if ix > 64 else 0)
            check(np.all(np.isfinite(line)), lambda: f"{what}: line {line}", "line")
            check(line[5] > 0 and np.isclose(np.linalg.norm(line[3:]), 1), lambda: f"{what}: direction {line[3:]}", "line")
            if kind == "parallel":
                check(np.allclose(line[3:], ray[1], atol=1e-6), lambda: f"{what}: direction {line[3:]} instead of {ray[1]}", "line")
            check(on_ray(line[:3], ray, tol), lambda: f"{what}: point {line[:3]} not on the ray {ray}", "line")
            for (pname, plane) in planes():
                exp = on_plane(*ray, plane)
                got = calib.intersect_with_plane(float(ix), float(iy), *plane)
                check(np.allclose(got, exp, atol=tol), lambda: f"{what}: intersection with the plane {pname}: {got} instead of {exp}", "plane")
                if not (8 <= ix <= 55 and 6 <= iy <= 40):
                    continue
                for dx, dy in ((1.0, 0.0), (0.0, 1.0), (-2.5, 1.5)):
                    r0, r1 = camera.ray(ix - dx / 2, iy - dy / 2), camera.ray(ix + dx / 2, iy + dy / 2)
                    exp = on_plane(*r1, plane) - on_plane(*r0, plane)
                    got = calib.apply_calib(float(ix), float(iy), dx, dy, *plane)
                    check(np.allclose(got, exp, atol=tol / 5), lambda: f"{what}: displacement {dx, dy} on the plane {pname}: {got} instead of {exp}", "displ")
                    rec.count("evaluations")
            rec.nontrivial(what)
        # arrays
        X, Y = np.array([10.0, 20, 33]), np.array([12.0, 30, 8])
        pname, plane = list(planes())[2]
        got = calib.intersect_with_plane(X, Y, *plane)
        exp = np.array([on_plane(*camera.ray(x, y), plane) for x, y in zip(X, Y)])
        check(got.shape == exp.shape and np.allclose(got, exp, atol=tol), lambda: f"{label}: arrays {got} {exp}", "plane")
        A, B = calib.get_base_camera_plane()
        check(np.allclose(A @ B, np.eye(3), atol=1e-9) and np.allclose(A[:, 2], camera.base[2], atol=1e-6 if kind == "parallel" else 0.03), lambda: f"{label}: base {A}", "base")
        check(np.allclose(A.T @ A, np.eye(3), atol=1e-9), lambda: f"{label}: base not orthonormal {A}", "base")
    rec.sample(label)


def case_stereo(rec, n0, n1):
    from fluidimage.calibration import DirectStereoReconstruction

    cams = [Parallel(*CAMERAS[n]) for n in (n0, n1)]
    label = f"stereo {n0} - {n1}"
    with tmpdir() as d:
        paths = []
        for i, c in enumerate(cams):
            calib = make_calib(Path(d) / str(i), c, (-0.01, 0.0, 0.01))
            paths.append(Path(d) / f"{i}.npz")
            calib.save(paths[-1])
        with quiet():
            stereo = DirectStereoReconstruction(*paths)
        ix, iy = (a.ravel() for a in np.meshgrid(np.arange(6.0, 60, 7), np.arange(6.0, 44, 7)))
        for pname, plane in planes():
            for disp in 1e-3 * np.array([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0.5, -1, 2)]):
                what = f"{label} plane {pname} displacement {disp}"
                pix = []
                for c in cams:
                    d2 = c.scale * (c.base[:2] @ disp)
                    pix += [ix, iy, np.full(ix.shape, d2[0]), np.full(ix.shape, d2[1])]
                with quiet():
                    X0, X1, d0, d1 = stereo.project2cam(*pix, *plane)
                    for c, X, dc, calib in ((cams[0], X0, d0, stereo.B0), (cams[1], X1, d1, stereo.B1)):
                        check(np.allclose(c.project(X), np.stack([ix, iy], axis=1), atol=1e-3), lambda: f"{what}: positions {X}", "stereo")
                    gx, gy, gz = stereo.find_common_grid(X0, X1, *plane)
                    lo = np.max([X0.min(axis=0), X1.min(axis=0)], axis=0)
                    hi = np.min([X0.max(axis=0), X1.max(axis=0)], axis=0)
                    check(gx.size >= 4, f"{what}: {gx.shape}", "grid")
                    inside = (gx >= lo[0] - 1e-9) & (gx <= hi[0] + 1e-9) & (gy >= lo[1] - 1e-9) & (gy <= hi[1] + 1e-9)
                    check(inside.all(), f"{what}: common grid outside of the common region", "grid")
                    a, b, c_, d_ = plane
                    check(np.allclose(a * gx + b * gy + c_ * gz + d_, 0, atol=1e-12), f"{what}: grid out of the plane", "grid")
                    # displacements of the planes: the projection on the camera plane of the displacement
                    res = stereo.reconstruction(X0, X1, d0, d1, *plane, gx, gy)
                dX, dY, dZ, ex, ey, ez = res
                got = np.stack([dX, dY, dZ])
                ok = np.isfinite(got)
                check(got.shape == (3, *gx.shape) and (ok.any() or pname != (0.0, 0, 0)), lambda: f"{what}: no displacement", "stereo")
                check(np.allclose(np.where(ok, got - disp[:, None, None], 0), 0, atol=2e-6), lambda: f"{what}: reconstruction {got[:, ok.all(axis=0)].T[:3]} (errors {ex[ok[0]][:2]})", "stereo")
                check(all(np.all(e[np.isfinite(e)] < 2e-6) for e in (ex, ey, ez)), f"{what}: errors", "stereo")
                rec.count("evaluations")
                rec.nontrivial(what)
    rec.sample(label)


# ---------------------------------------------------------------- Tsai


def case_tsai(rec, rot, n_slices, angles, refraction):
    from fluidimage.calibration import Calibration

    cam = Parallel(*rot)
    flip = np.diag([1.0, -1.0, -1.0])
    R = flip @ cam.base  # the camera looks downward
    T, f, C, nby, H = np.array([1.5, -2.0, 400.0]), np.array([3000.0, 2900.0]), np.array([1200.0, 1000.0]), 2000, 100.0
    zs = [20.0 + 4 * i for i in range(n_slices)]
    row = lambda a: " ".join(f"{v:.15g}" for v in a)
    text = '<?xml version="1.0" ?>\n<ImaDoc><GeometryCalib><CalibrationType>3D_extrinsic</CalibrationType>\n'
    text += f"<fx_fy>{row(f)}</fx_fy><Cx_Cy>{row(C)}</Cx_Cy><kc>0</kc><CoordUnit>cm</CoordUnit><Tx_Ty_Tz>{row(T)}</Tx_Ty_Tz>\n"
    text += "".join(f'<R i="{i + 1}">{row(R[i])}</R>' for i in range(3)) + "<omc>0 0 0</omc>"
    text += f"<NbSlice>{n_slices}</NbSlice>\n"
    if n_slices == 1:
        text += f"<SliceCoord>0 0 {zs[0]}</SliceCoord>"
    else:
        text += "".join(f'<SliceCoord i="{i + 1}">0 0 {z}</SliceCoord>' for i, z in enumerate(zs))
    if angles:
        angle = lambda i: row((3.0 * (i - 1), 0, 0) if angles == "x" else (0, 2.0 + i, 0))
        if n_slices == 1:
            text += f"<SliceAngle>{angle(0)}</SliceAngle>"
        else:
            text += "".join(f'<SliceAngle i="{i + 1}">{angle(i)}</SliceAngle>' for i in range(n_slices))
    if refraction:
        text += f"<InterfaceCoord>0 0 {H}</InterfaceCoord><RefractionIndex>{refraction}</RefractionIndex>"
    text += "</GeometryCalib></ImaDoc>\n"

    def project(p):
        """meters -> pixels"""
        p = 100 * np.asarray(p)
        if refraction and p[2] < H:
            p = np.array([p[0], p[1], H - (H - p[2]) / refraction])
        q = R @ p + T
        return f * q[:2] / q[2] + C

    with tmpdir() as d:
        path = Path(d) / "calib.xml"
        path.write_text(text)
        with quiet():
            calib = Calibration(path)
    label = f"Tsai calibration, rotation {rot}, {n_slices} slices, angles {angles}, refraction {refraction}"
    pixels = list(itertools.product((0.0, 700.0, 1200.0, 2399.0), (0.0, 850.0, 1000.0, 1999.0)))
    for level in range(n_slices):
        for tilted in (True, False):
            if not angles:
                slope = (0.0, 0.0)
            elif angles == "x":
                slope = (0.0, np.tan(np.radians(3.0 * (level - 1))))
            else:
                slope = (-np.tan(np.radians(2.0 + level)), 0.0)
            if not tilted:
                slope = (0.0, 0.0)
            z = zs[level] / 100
            X, Y = np.array(pixels).T
            before = X.copy(), Y.copy()
            with quiet():
                P = calib.pix2phys(X, Y, level, nby, angle=tilted)
            check(np.array_equal(X, before[0]) and np.array_equal(Y, before[1]), f"{label}: pix2phys modified its arguments", "modified")
            P = np.stack(np.broadcast_arrays(*P), axis=-1)
            for (ix, iy), p in zip(pixels, P):
                what = f"{label} slice {level} tilted={tilted} pixel {ix, iy}"
                check(abs(p[2] - (z + slope[0] * p[0] + slope[1] * p[1])) < 1e-9, lambda: f"{what}: position {p} out of the slice", "tsai-plane")
                got = project(p)
                check(np.allclose(got, (ix, nby - iy), atol=1e-5), lambda: f"{what}: position {p} seen at {got[0], nby - got[1]}", "tsai")
                with quiet():
                    back = calib.phys2pix(*p)
                check(np.allclose(back, (ix, nby - iy), atol=1e-5), lambda: f"{what}: phys2pix(pix2phys) {back}", "tsai-inverse")
                rec.count("evaluations")
                rec.nontrivial(what)
            dx, dy = np.full(X.shape, 3.0), np.full(X.shape, -5.0)
            with quiet():
                out = calib.pix2phys_UV(X, Y, dx, dy, level, nby, angle=tilted)
                b = calib.pix2phys(X + 1.5, Y - 2.5, level, nby, angle=tilted)
                a = calib.pix2phys(X - 1.5, Y + 2.5, level, nby, angle=tilted)
            for k in range(3):
                check(np.allclose(out[k], P[:, k]), f"{label}: pix2phys_UV: positions", "tsai-uv")
                check(np.allclose(out[3 + k], b[k] - a[k], atol=1e-12), f"{label}: pix2phys_UV: displacements", "tsai-uv")
    arrays = [P[:, 0].copy(), P[:, 1].copy()]
    with quiet():
        calib.phys2pix(*arrays, z)
    check(np.array_equal(arrays[0], P[:, 0]) and np.array_equal(arrays[1], P[:, 1]), f"{label}: phys2pix modified its arguments", "tsai-modified")
    if not refraction:
        arrays = [P[:, i].copy() for i in range(3)]
        with quiet():
            got = np.stack(calib.phys2pix(*arrays), axis=1)
        check(np.allclose(got, [project(p) for p in P]), f"{label}: phys2pix of arrays", "tsai-inverse")
    rec.sample(label)


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    out = [("simple", a, dist) for a in (1.0, 0.5, 1.25, 3.0) for dist in (1.0, 0.02)]
    levels = ((-0.01, 0.0, 0.01), (0.01, -0.01), (0.004, -0.012, 0.0, 0.009))
    names = list(CAMERAS)
    for kind, name, lev in itertools.product(("parallel", "pinhole"), names, levels):
        out.append(("direct", kind, name, lev, (), 1, False))
    for name in names:
        out.append(("direct", "parallel", name, levels[0], (), -1, True))
        for partial in ((2,), (0,), (1, 3)):
            out.append(("partial", name, levels[2], partial))
    for n0, n1 in itertools.combinations(names, 2):
        if Parallel(*CAMERAS[n0]).base[2] @ Parallel(*CAMERAS[n1]).base[2] > np.cos(np.radians(12)):
            continue  # nearly the same direction
        out.append(("stereo", n0, n1))
        if not ctx.quick:
            out.append(("stereo", n1, n0))
    rots = ((0, 0), (10, -5), (-8, 12, 40)) if ctx.quick else ((0, 0), (10, -5), (-8, 12, 40), (20, 0), (0, -20), (5, 5, 170))
    for rot, n, ang, refr in itertools.product(rots, (1, 2, 5), (None, "x", "y"), (None, 1.34)):
        out.append(("tsai", rot, n, ang, refr))
    odd = (1, 3, 5, 7)
    out += [("cv_points", nx, ny) for nx, ny in itertools.product(odd, odd) if nx * ny > 1]
    out += [("cv_detect", nx, ny, t) for nx, ny in itertools.product(odd[1:], odd[1:]) for t in (0.0, 1.5)]
    out += [("cv_calib", nx, ny, where) for (nx, ny), where in zip(((7, 7), (5, 7), (7, 5)), ("relative", "sub", "absolute"))]
    ctx.pmap(case, out, timeout=300, chunk=2)


def case_partial(rec, name, levels, partial):
    """pixels which are not covered by the points of some levels"""
    camera = Parallel(*CAMERAS[name])
    from fluidimage.calibration import CalibDirect

    with tmpdir() as d:
        write_points(d, camera, levels, partial=partial)
        with quiet():
            calib = CalibDirect(str(Path(d) / "img*.xml"), (48, 100))
            calib.compute_interpolents()
            calib.compute_interpolents_pixel2line(11, 7)
        label = f"direct calibration, camera {name}, levels {levels}, levels {partial} do not cover all the pixels"
        for ix, iy in itertools.product((0, 30, 60, 75, 99), (0, 21, 40)):
            line = calib.pixel2line(ix, iy)
            ray = camera.ray(ix, iy)
            what = f"{label}, pixel {ix, iy}"
            check(np.allclose(line[3:], ray[1], atol=1e-6), lambda: f"{what}: direction {line[3:]} instead of {ray[1]}", "line-partial")
            check(on_ray(line[:3], ray, 1e-6), lambda: f"{what}: point {line[:3]} not on the ray {ray}", "line-partial")
            for pname, plane in planes():
                got = calib.intersect_with_plane(float(ix), float(iy), *plane)
                exp = on_plane(*ray, plane)
                check(np.allclose(got, exp, atol=1e-4), lambda: f"{what}: plane {pname} {got} {exp}", "line-partial")
            rec.count("evaluations")
            rec.nontrivial(what)
    rec.sample(label)


# ---------------------------------------------------------------- OpenCV


def case_cv_points(rec, nx, ny):
    from fluidimage.calibration.calib_cv import construct_object_points

    for z, ds in ((0.0, 1.0), (-3.0, 2.5)):
        got = construct_object_points(nx, ny, z, ds)
        exp = [((i - nx // 2) * ds, (j - ny // 2) * ds, z) for j in range(ny) for i in range(nx)]
        what = f"construct_object_points({nx}, {ny}, {z}, {ds})"
        check(got.shape == (nx * ny, 3) and np.allclose(got, exp), lambda: f"{what}:\n{got}\ninstead of\n{np.array(exp)}", "cv-object")
        rec.count("evaluations")
        rec.nontrivial(what)


def disks(shape, centers, radius=5.0):
    y, x = np.mgrid[0 : shape[0], 0 : shape[1]]
    im = np.full(shape, 20.0)
    for cx, cy in centers:
        im = np.maximum(im, 220 * np.clip(radius + 0.5 - np.hypot(x - cx, y - cy), 0, 1))
    return im


def case_cv_detect(rec, nx, ny, tilt):
    from fluidimage.calibration.calib_cv import SimpleCircleGrid

    ds = 30
    shape = (ds * (ny + 5), ds * (nx + 4))
    params = SimpleCircleGrid.create_default_params()
    grid = SimpleCircleGrid(params)
    for origin in ((ds * (nx + 4) // 2, ds * (ny + 5) // 2), (ds * (nx + 3) // 2, ds * (ny + 4) // 2)):
        # the grid is surrounded by other circles, are not kept
        i, j = np.meshgrid(np.arange(-nx - 3, nx + 4), np.arange(-ny - 4, ny + 5))
        cx, cy = origin[0] + ds * i + tilt * j, origin[1] + ds * j - tilt * i
        inside = ((abs(i) <= nx // 2) | (abs(i) > nx // 2 + 1)) & ((abs(j) <= ny // 2) | (abs(j) > ny // 2 + 1))
        inside &= (cx > 8) & (cx < shape[1] - 8) & (cy > 8) & (cy < shape[0] - 8)
        im = disks(shape, zip(cx[inside], cy[inside]))
        exp = [(origin[0] + ds * a + tilt * b, origin[1] + ds * b - tilt * a) for b in range(-(ny // 2), ny // 2 + 1) for a in range(-(nx // 2), nx // 2 + 1)]
        with quiet():
            got = grid.detect_grid(im, origin, nx, ny, ds)
        what = f"detect_grid {nx}x{ny} origin {origin} tilt {tilt}"
        check(got.shape == (1, nx * ny, 2) and np.allclose(got[0], exp, atol=0.3), lambda: f"{what}:\n{got}\ninstead of\n{np.array(exp)}", "cv-detect")
        rec.count("evaluations")
        rec.nontrivial(what)
        try:
            with quiet():
                grid.detect_grid(disks(shape, [exp[0]]), origin, nx, ny, ds)
        except AssertionError:
            check(nx * ny > 1, f"{what}: one point not found", "cv-detect")
        else:
            check(nx * ny == 1, f"{what}: only one point, accepted", "cv-detect")


def case_cv_calib(rec, nx, ny, where):
    """images of a pinhole camera -> calibration -> file -> rotation, translation"""
    import os

    import cv2
    from fluidimage.calibration.calib_cv import CalibCV, construct_object_points

    f, C = (900.0, 950.0), (250.0, 240.0)
    mtx = np.array([[f[0], 0, C[0]], [0, f[1], C[1]], [0, 0, 1.0]])
    zs = [-2.0, 0.0, 1.0, 3.0]
    rvec, tvec = np.array([0.3, -0.25, 0.1]), np.array([1.0, 2.0, 60.0])
    objs = [construct_object_points(nx, ny, 0.0, 3.0) for z in zs]
    R = cv2.Rodrigues(rvec)[0]
    tvecs = [tvec + R @ (0, 0, z) for z in zs]
    imgs = [cv2.projectPoints(o, rvec, t, mtx, np.zeros(5))[0].reshape(1, -1, 2).astype(np.float32) for o, t in zip(objs, tvecs)]
    # rotations which depend on z only for the interpolation
    with tmpdir() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            path = {"relative": "cam.h5", "sub": Path("new") / "cam.h5", "absolute": str(Path(d) / "a" / "b" / "cam.h5")}[where]
            calib = CalibCV(path)
            flags = cv2.CALIB_USE_INTRINSIC_GUESS + cv2.CALIB_FIX_K1 + cv2.CALIB_FIX_K2 + cv2.CALIB_FIX_K3 + cv2.CALIB_FIX_K4 + cv2.CALIB_FIX_K5 + cv2.CALIB_ZERO_TANGENT_DIST
            with quiet():
                guess = calib.calibrate(imgs, objs, zs, (500, 480), origin=C, debug=True, flags=flags)
            check(len(guess) == 5 and np.shape(guess[1]) == (3, 3), "calibrate(debug=True)", "cv")
            zs2 = np.array(zs)
            rvecs = [rvec + 0.01 * z * np.array([1, 2, -1]) for z in zs2]
            with quiet():
                calib.save(zs, 0.1, mtx, np.array([[0.1, 0.2, 0.01, 0.02, 0.3]]).reshape(5, 1), [r.reshape(3, 1) for r in rvecs], [t.reshape(3, 1) for t in tvecs])
                loaded = CalibCV(path)
            for name, c in (("saved", calib), ("loaded", loaded)):
                what = f"CalibCV {name} {where}"
                p = c.params
                check(np.allclose(p.cam_mtx, mtx) and np.allclose(p.f, f) and np.allclose(p.C, C), f"{what}: matrix", "cv")
                check(np.allclose(np.ravel(p.zs), zs), f"{what}: zs", "cv")
                for z in np.linspace(-2, 3, 11):
                    r, t = np.ravel(c.get_rotation(z)), np.ravel(c.get_translate(z))
                    er = [np.interp(z, zs, [q[k] for q in rvecs]) for k in range(3)]
                    et = [np.interp(z, zs, [q[k] for q in tvecs]) for k in range(3)]
                    check(np.allclose(r, er), lambda: f"{what} z={z}: rotation {r} instead of {er}", "cv")
                    check(np.allclose(t, et), lambda: f"{what} z={z}: translation {t} instead of {et}", "cv")
                    rec.count("evaluations")
                    rec.nontrivial((what, z, nx, ny))
                check(np.allclose(c.rotmtx_from_rotvec(rvec), R), f"{what}: rotation matrix", "cv")
        finally:
            os.chdir(cwd)
    rec.sample(what)
