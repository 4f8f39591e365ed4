"""P22: operations on vector fields, against a model of a field"""
import copy
import itertools
from pathlib import Path

import numpy as np

from ..common import check, quiet, tmpdir

LEVEL = "model_checking"
RULE = (
    "Explicit-state exploration: all the sequences of operations (extractions by indices or positions, truncation, squares, filters, "
    "arithmetic with numbers and fields, save/load, copy) up to the depth from each initial field (shapes, orientations, kinds of z and "
    "vz); the model (plain arrays and loops) is stepped with the real objects and compared after each operation, with the object before "
    "the operation unmodified. Same for lists of fields against a Python list. States are identified by their whole content. Every transition is replayed on the implementation."
)
ASSUMPTIONS = ["fields up to 9x8 points", "vz with the gaussian filter is not considered (documented as not done in the code)"]

NAMES = ("namevx", "namevy", "namevz", "unitvx", "unitvy", "unitvz", "namex", "namey", "namez", "unitx", "unity", "unitz", "name")


def fields_module():
    from fluidimage.postproc import vector_field

    return vector_field


# ---------------------------------------------------------------- model


class Model:
    """x, y: 1d; vx, vy: 2d; vz: 2d or None; z: 2d or number or None"""

    def __init__(self, x, y, z, vx, vy, vz, names, nhist):
        self.x, self.y, self.z, self.vx, self.vy, self.vz = x, y, z, vx, vy, vz
        self.names, self.nhist = names, nhist

    def sub(self, iy, ix):
        def f(a):
            if a is None or np.ndim(a) < 2:
                return a
            return np.array([[a[j][i] for i in ix] for j in iy])

        return Model(
            np.array([self.x[i] for i in ix]), np.array([self.y[i] for i in iy]), f(self.z), f(self.vx), f(self.vy), f(self.vz),
            self.names, self.nhist + 1,
        )

    def map(self, f, vz=True):
        return Model(
            self.x, self.y, self.z, f(self.vx), f(self.vy), self.vz if not vz or np.ndim(self.vz) < 2 else f(self.vz), self.names, self.nhist + 1
        )


def reflect(i, n):
    while not 0 <= i < n:
        i = -i - 1 if i < 0 else 2 * n - 1 - i
    return i


def median2d(a, size):
    (sy, sx), (ny, nx) = size, a.shape
    out = np.empty(a.shape)
    for j in range(ny):
        for i in range(nx):
            values = sorted(
                a[reflect(j + b, ny), reflect(i + c, nx)] for b in range(-(sy // 2), sy // 2 + 1) for c in range(-(sx // 2), sx // 2 + 1)
            )
            out[j, i] = values[len(values) // 2]
    return out


def gauss_matrix(n, sigma, truncate):
    r = int(truncate * sigma + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    m = np.zeros((n, n))
    for i in range(n):
        for d in range(-r, r + 1):
            m[i, reflect(i + d, n)] += k[d + r]
    return m


def gauss2d(a, sigma, truncate):
    ny, nx = a.shape
    return gauss_matrix(ny, sigma[0], truncate) @ a @ gauss_matrix(nx, sigma[1], truncate).T


def derive(a, h):
    """second order derivative along the first axis"""
    d = np.empty(a.shape)
    d[1:-1] = (a[2:] - a[:-2]) / (2 * h)
    d[0] = (-3 * a[0] + 4 * a[1] - a[2]) / (2 * h)
    d[-1] = (3 * a[-1] - 4 * a[-2] + a[-3]) / (2 * h)
    return d


# ---------------------------------------------------------------- operations: name -> (enabled, real, model)


def second(m):
    """another field on the same grid"""
    vx = 2.0 + np.cos(1.3 * np.arange(m.vx.size)).reshape(m.vx.shape)
    vy = 3.0 - np.sin(0.7 * np.arange(m.vx.size)).reshape(m.vx.shape)
    vz = 1.5 + np.cos(0.4 * np.arange(m.vx.size)).reshape(m.vx.shape) if np.ndim(m.vz) == 2 else np.nan
    return vx, vy, vz


def operations(quick):
    ops = {}

    def add(name, enabled, real, model):
        ops[name] = (enabled, real, model)

    big = lambda ny, nx: lambda m: len(m.y) >= ny and len(m.x) >= nx

    for a, b, c, d in ((0, 4, 1, 5), (1, 3, 0, 2), (2, None, 1, None), (0, -1, 0, -2)):
        add(
            f"extract({a},{b},{c},{d})",
            lambda m, s=(slice(a, b), slice(c, d)): len(m.y[s[0]]) >= 2 and len(m.x[s[1]]) >= 2,
            lambda f, a=(a, b, c, d): f.extract(*a),
            lambda m, s=(slice(a, b), slice(c, d)): m.sub(range(len(m.y))[s[0]], range(len(m.x))[s[1]]),
        )

    def phys(k):
        def bounds(m):
            y, x = m.y, m.x
            if k == 0:  # on points
                return y[1], y[-1], x[0], x[-2]
            if k == 1:  # between points
                return y[0] + 0.4 * (y[1] - y[0]), y[-1] + 1, x[0] - 1, x[-1] - 0.4 * (x[-1] - x[-2])
            return y[0], y[2], x[1], x[-1]  # only some

        def real(f):
            m = Model(f.x, f.y, None, f.vx, f.vy, None, None, 0)
            return f.extract(*bounds(m), phys=True)

        def model(m):
            y0, y1, x0, x1 = bounds(m)
            return m.sub([j for j, v in enumerate(m.y) if y0 <= v <= y1], [i for i, v in enumerate(m.x) if x0 <= v <= x1])

        add(f"extract-phys{k}", big(3, 3), real, model)

    for k in range(3):
        phys(k)

    for cut in (0, 1, 2):
        add(
            f"truncate({cut})", big(2 * cut + 2, 2 * cut + 2), lambda f, c=cut: f.truncate(c),
            lambda m, c=cut: m.sub(range(c, len(m.y) - c), range(c, len(m.x) - c)),
        )
    for cut, even in itertools.product((0, 1), (True, False)):

        def square(m, cut=cut, even=even):
            n = min(len(m.x), len(m.y)) - 2 * cut
            if even and n % 2:
                n -= 1
            ny, nx = len(m.y), len(m.x)
            x0 = (nx - n) // 2 if nx > ny else cut
            y0 = cut if nx > ny else (ny - n) // 2
            return m.sub(range(y0, y0 + n), range(x0, x0 + n))

        add(f"square({cut},{even})", big(2 * cut + 3, 2 * cut + 3), lambda f, c=cut, e=even: f.extract_square(c, force_even=e), square)

    sizes = (3, (1, 3), (5, 3)) if quick else (1, 3, (1, 3), (3, 1), (5, 3))
    for size, valid, niter in itertools.product(sizes, (True, False), (1, 2)):
        if niter == 2 and (valid or size != 3):
            continue
        s = (size, size) if isinstance(size, int) else size

        def median(m, s=s, valid=valid, niter=niter):
            def f(a):
                for _ in range(niter):
                    a = median2d(a, s)
                return a

            m = m.map(f)
            mf = max(s) // 2
            if valid:
                m = m.sub(range(mf, len(m.y) - mf), range(mf, len(m.x) - mf))
            return m

        mf = max(s) // 2 if valid else 0
        add(f"median({size},{valid},{niter})", big(2 * mf + 2, 2 * mf + 2), lambda f, a=(size, niter, valid): f.median_filter(a[0], niter=a[1], valid=a[2]), median)

    for sigma, truncate, valid, niter in ((0.5, 3, True, 1), ((0.8, 0.4), 2, True, 1), ((0.4, 0.8), 3, False, 1), (0.6, 3, False, 2)):
        s = (sigma, sigma) if isinstance(sigma, float) else sigma
        mf = int(truncate * max(s) + 0.5) if valid else 0

        def gauss(m, s=s, t=truncate, mf=mf, niter=niter):
            def f(a):
                for _ in range(niter):
                    a = gauss2d(a, s, t)
                return a

            m = m.map(f, vz=False)
            if mf:
                m = m.sub(range(mf, len(m.y) - mf), range(mf, len(m.x) - mf))
            return m

        add(
            f"gauss({sigma},{truncate},{valid},{niter})", big(2 * mf + 2, 2 * mf + 2),
            lambda f, a=(sigma, niter, truncate, valid): f.gaussian_filter(a[0], niter=a[1], truncate=a[2], valid=a[3]), gauss,
        )

    def arith(name, real, func):
        def model(m):
            vz = m.vz if np.ndim(m.vz) < 2 else func(m.vz, 2)
            return Model(m.x, m.y, m.z, func(m.vx, 0), func(m.vy, 1), vz, None, 0)

        add(name, lambda m: True, real, model)

    arith("f+2", lambda f: f + 2, lambda a, k: a + 2.0)
    arith("1.5+f", lambda f: 1.5 + f, lambda a, k: a + 1.5)
    arith("f-3", lambda f: f - 3, lambda a, k: a - 3.0)
    arith("f*2", lambda f: f * 2, lambda a, k: 2.0 * a)
    arith("-0.5*f", lambda f: -0.5 * f, lambda a, k: -0.5 * a)
    arith("f/4", lambda f: f / 4, lambda a, k: a / 4.0)
    arith("f+np.float64", lambda f: f + np.float64(0.25), lambda a, k: a + 0.25)

    def with_field(name, op):
        def real(f):
            vx, vy, vz = second(Model(f.x, f.y, None, f.vx, f.vy, f.vz, None, 0))
            g = type(f)(f.x, f.y, f.z, vx, vy, vz)
            return op(f, g)

        def model(m):
            vx, vy, vz = second(m)
            return Model(m.x, m.y, m.z, op(m.vx, vx), op(m.vy, vy), op(m.vz, vz) if np.ndim(m.vz) == 2 else m.vz, None, 0)

        add(name, lambda m: True, real, model)

    with_field("f+g", lambda a, b: a + b)
    with_field("f-g", lambda a, b: a - b)
    with_field("g-f", lambda a, b: b - a)
    with_field("f*g", lambda a, b: a * b)
    with_field("f/g", lambda a, b: a / b)
    with_field("sum", lambda a, b: sum([a, b, a]) if not isinstance(a, np.ndarray) else a + b + a)

    def reload(f):
        with tmpdir() as d:
            path = Path(d) / "f.h5"
            f.save(path)
            return type(f).from_file(path)

    same = lambda m: Model(m.x, m.y, m.z, m.vx, m.vy, m.vz, m.names, m.nhist)
    add("save-load", lambda m: True, reload, same)
    add("deepcopy", lambda m: True, copy.deepcopy, same)
    return ops


# ---------------------------------------------------------------- comparison


def content(f):
    out = []
    for a in ("x", "y", "z", "vx", "vy", "vz"):
        v = getattr(f, a)
        out.append((a, None if v is None else (np.asarray(v).shape, np.asarray(v, dtype=float).tobytes())))
    return tuple(out) + tuple(getattr(f, n) for n in NAMES) + (tuple(f.history),)


def regular(a):
    d = np.diff(a)
    return bool(np.allclose(d, d[0]))


def compare(f, m, what):
    for a in ("x", "y", "vx", "vy"):
        got, exp = np.asarray(getattr(f, a)), getattr(m, a)
        check(got.shape == exp.shape, lambda: f"{what}: shape of {a} {got.shape} instead of {exp.shape}", a)
        check(np.allclose(got, exp, rtol=1e-10, atol=1e-12, equal_nan=True), lambda: f"{what}: {a} is\n{got}\ninstead of\n{exp}", a)
    check(tuple(f.shape) == m.vx.shape, lambda: f"{what}: shape {f.shape}, arrays {m.vx.shape}", "shape")
    for a in ("vz", "z"):
        got, exp = getattr(f, a), getattr(m, a)
        if exp is None or np.ndim(exp) < 2:
            if exp is None:
                check(got is None or np.all(np.isnan(np.asarray(got, dtype=float))), lambda: f"{what}: {a} is {got}", a)
            else:
                check(np.ndim(got) == 0 and np.allclose(float(got), exp, equal_nan=True), lambda: f"{what}: {a} is {got} instead of {exp}", a)
        else:
            check(np.shape(got) == exp.shape and np.allclose(got, exp, rtol=1e-10, atol=1e-12), lambda: f"{what}: {a} is\n{got}\ninstead of\n{exp}", a)
    if m.names is not None:
        names = tuple(getattr(f, n) for n in NAMES)
        check(names == m.names, lambda: f"{what}: names {names} instead of {m.names}", "names")
    check(np.allclose(f.compute_norm(), np.hypot(m.vx, m.vy)), lambda: f"{what}: norm {f.compute_norm()}", "norm")
    ny, nx = m.vx.shape
    if nx >= 3 and ny >= 3 and regular(m.x) and regular(m.y) and f.is_grid_regular:
        dx, dy = m.x[1] - m.x[0], m.y[1] - m.y[0]
        div = derive(m.vx.T, dx).T + derive(m.vy, dy)
        rot = derive(m.vy.T, dx).T - derive(m.vx, dy)
        got = f.compute_divh(), f.compute_rotz()
        check(np.allclose(got[0], div, atol=1e-9), lambda: f"{what}: divergence\n{got[0]}\ninstead of\n{div}", "div")
        check(np.allclose(got[1], rot, atol=1e-9), lambda: f"{what}: curl\n{got[1]}\ninstead of\n{rot}", "rot")


def initial(shape, flip, zkind, vzkind):
    """the real field and its model"""
    ny, nx = shape
    x = 2.0 + 0.5 * np.arange(nx)
    y = -1.0 + 0.25 * np.arange(ny)
    j, i = np.mgrid[0:ny, 0:nx]
    vx = np.sin(1.7 * j + 0.6 * i * i) + 0.1 * i
    vy = np.cos(0.9 * i - 1.1 * j * j) - 0.2 * j
    vz = {"none": None, "field": np.sin(0.3 * i * j) + 1.0}[vzkind]
    z = {"none": None, "number": 0.5, "field": 0.1 * i - 0.2 * j + 0.01 * i * j}[zkind]
    names = tuple(f"{n} é" for n in NAMES)
    m = Model(x, y, z, vx, vy, vz, names, 1)
    fy, fx = (slice(None, None, -1 if k in flip else 1) for k in "yx")
    f2 = lambda a: a if a is None or np.ndim(a) < 2 else a[fy, fx].copy()
    kw = dict(zip(NAMES, names))
    if vz is not None:
        kw["vz"] = f2(vz)
    f = fields_module().VectorFieldOnGrid(x[fx].copy(), y[fy].copy(), f2(z), f2(vx), f2(vy), history=["initial"], **kw)
    return f, m


def case_explore(rec, shape, flip, zkind, vzkind, depth, prefix):
    quick = depth <= 2
    ops = operations(quick)
    seen = set()
    label = f"field {shape} flip={flip!r} z={zkind} vz={vzkind}"

    def step(f, m, name, trace):
        enabled, real, model = ops[name]
        if not enabled(m):
            return None
        what = f"{label}: {' ; '.join(trace + [name])}"
        before = content(f)
        with quiet(), np.errstate(all="ignore"):
            g = real(f)
        rec.count("transitions")
        rec.count("traces")
        check(content(f) == before, lambda: f"{what}: the initial object is modified", "modified")
        with np.errstate(all="ignore"):
            mg = model(m)
        compare(g, mg, what)
        if mg.names is None:
            # names of results of arithmetic operations are not specified
            mg.names = tuple(getattr(g, n) for n in NAMES)
        elif mg.nhist > m.nhist:
            check(list(g.history)[: len(f.history)] == list(f.history) and len(g.history) > len(f.history), lambda: f"{what}: history {g.history}", "history")
        else:
            check(list(g.history) == list(f.history), lambda: f"{what}: history {g.history}", "history")
        if np.ndim(mg.vz) == 2 and name.startswith("gauss"):
            mg.vz = np.array(g.vz)
        return g, mg

    def explore(f, m, trace, left):
        key = content(f)
        if (key, left) in seen:
            return
        seen.add((key, left))
        rec.count("states")
        rec.nontrivial((label, key))
        if not left:
            return
        for name in ops:
            r = step(f, m, name, trace)
            if r:
                explore(*r, trace + [name], left - 1)

    f, m = initial(shape, flip, zkind, vzkind)
    compare(f, m, label)
    trace = []
    for name in prefix:
        r = step(f, m, name, trace)
        if r is None:
            return
        f, m = r
        trace.append(name)
    explore(f, m, trace, depth - len(prefix))
    rec.sample(f"{label} after {prefix}")


# ---------------------------------------------------------------- irregular grids


def case_regularize(rec, irr_x, irr_y, zkind, saved):
    cls = fields_module().VectorFieldOnGrid
    for ny, nx in ((4, 5), (5, 4), (3, 3)):
        x, y = 1.0 + 2 * np.arange(nx), 3.0 + 0.5 * np.arange(ny)
        if irr_x:
            x[-1] -= 0.7
        if irr_y:
            y[-1] -= 0.2
        vx = np.arange(ny * nx).reshape(ny, nx) * 1.0
        vy = -(vx**2)
        f = cls(x, y, {"none": None, "number": 2.0}[zkind], vx, vy)
        if saved:
            f = operations(True)["save-load"][1](f)
        check(f.is_grid_regular == (not (irr_x or irr_y)), f"is_grid_regular {f.is_grid_regular}", "regular")
        what = f"regularize_grid {ny, nx} irregular x={irr_x} y={irr_y} z={zkind} loaded={saved}"
        f.regularize_grid()
        ex, ey = nx - bool(irr_x), ny - bool(irr_y)
        m = Model(x[:ex], y[:ey], {"none": None, "number": 2.0}[zkind], vx[:ey, :ex], vy[:ey, :ex], None, None, 0)
        check(f.is_grid_regular, what, "regular")
        compare(f, m, what)
        check(np.isclose(f.dx, 2.0) and np.isclose(f.dy, 0.5), f"{what}: {f.dx} {f.dy}", "regular")
        rec.count("transitions")
        rec.count("traces")
        rec.count("states")
        rec.nontrivial(what)


# ---------------------------------------------------------------- arrays of fields


def case_arrays(rec, first, depth):
    """sequences of operations on an array of fields / on a list of (model) fields"""
    mod = fields_module()
    ops = operations(True)
    elem = ["f+2", "1.5+f", "f-3", "f*2", "-0.5*f", "f/4"]
    base = [initial((6, 5), "", "number", "none") for _ in range(4)]
    for k, (f, m) in enumerate(base):
        f.vx = f.vx + k
        m.vx = m.vx + k

    def new(k):
        return base[k]

    mapped = {
        "median": (lambda a: a.median_filter(3, valid=False), "median(3,False,1)"),
        "median-valid": (lambda a: a.median_filter(3), "median(3,True,1)"),
        "gauss": (lambda a: a.gaussian_filter(0.5), "gauss(0.5,3,True,1)"),
        "extract": (lambda a: a.extract(0, 4, 1, 5), "extract(0,4,1,5)"),
        "truncate": (lambda a: a.truncate(1), "truncate(1)"),
        "square": (lambda a: a.extract_square(0), "square(0,True)"),
        "+f": (None, None),
        "-f": (None, None),
    }
    for e in elem:
        mapped[e] = (ops[e][1], e)

    def elementwise(name, arr, models):
        if name in ("+f", "-f"):
            f, m = new(3)
            sign = 1 if name == "+f" else -1
            if any(len(q.x) != 5 or len(q.y) != 6 for q in models):
                return None
            res = arr + f if name == "+f" else arr - f
            out = [Model(q.x, q.y, q.z, q.vx + sign * m.vx, q.vy + sign * m.vy, q.vz, None, 0) for q in models]
            return res, out
        real, key = mapped[name]
        if not all(ops[key][0](q) for q in models):
            return None
        res = real(arr)
        return res, [ops[key][2](q) for q in models]

    def apply(name, arr, models):
        n = len(models)
        if name == "append":
            arr.append(new(0)[0])
            return arr, models + [new(0)[1]]
        if name == "extend":
            arr.extend([new(1)[0], new(2)[0]])
            return arr, models + [new(1)[1], new(2)[1]]
        if name == "set":
            if not n:
                return None
            arr[n // 2] = new(2)[0]
            models = list(models)
            models[n // 2] = new(2)[1]
            return arr, models
        if name == "del":
            if not n:
                return None
            del arr[0]
            return arr, models[1:]
        if name == "slice":
            return arr[1:], models[1:]
        if name == "slice-step":
            return arr[::2], models[::2]
        if name == "apply":
            if not n or len({q.vx.shape for q in models}) > 1:
                return None
            res = arr.apply_function_to_spatiotemp_data(lambda a: a - a.mean(axis=0))
            mx = np.mean([q.vx for q in models], axis=0)
            my = np.mean([q.vy for q in models], axis=0)
            return res, [Model(q.x, q.y, q.z, q.vx - mx, q.vy - my, q.vz, None, 0) for q in models]
        if name == "apply-reverse":  # the function returns a view
            if not n or len({q.vx.shape for q in models}) > 1:
                return None
            res = arr.apply_function_to_spatiotemp_data(lambda a: a[::-1])
            return res, [Model(q.x, q.y, q.z, p.vx, p.vy, q.vz, None, 0) for q, p in zip(models, models[::-1])]
        if name == "apply-inplace":
            if not n or len({q.vx.shape for q in models}) > 1:
                return None

            def double(a):
                a *= 2
                return a

            res = arr.apply_function_to_spatiotemp_data(double)
            return res, [Model(q.x, q.y, q.z, 2 * q.vx, 2 * q.vy, q.vz, None, 0) for q in models]
        return elementwise(name, arr, models)

    inplace = ("append", "extend", "set", "del")
    names = list(inplace) + ["slice", "slice-step", "apply", "apply-reverse", "apply-inplace"] + list(mapped)

    def verify(arr, models, what):
        check(isinstance(arr, mod.ArrayOfVectorFieldsOnGrid), f"{what}: type {type(arr)}", "array")
        check(len(arr) == len(models) == len(list(arr)), lambda: f"{what}: {len(arr)} fields instead of {len(models)}", "array")
        for i, (f, m) in enumerate(zip(arr, models)):
            check(arr[i] is f, what, "array")
            compare(f, m, f"{what}, field {i}")
        repr(arr)
        n = len(models)
        if n and len({q.vx.shape for q in models}) == 1:
            before = [content(f) for f in arr]
            mean = arr.compute_time_average()
            m = models[0]
            exp = Model(m.x, m.y, m.z, np.mean([q.vx for q in models], axis=0), np.mean([q.vy for q in models], axis=0), m.vz, None, 0)
            compare(mean, exp, f"{what}: time average")
            check(before == [content(f) for f in arr], f"{what}: modified by compute_time_average", "modified")
        arr.set_timestep(0.5, "min")
        check(np.allclose(arr.times, 0.5 * np.arange(n)) and len(arr.times) == n, lambda: f"{what}: times {arr.times}", "times")

    def explore(make, models, trace):
        """make: builds a new real array"""
        arr = make()
        with quiet():
            verify(arr, models, " ; ".join(trace))
        rec.count("states")
        rec.nontrivial(("array", tuple(trace)))
        if len(trace) > depth:
            return
        for name in names:
            if len(trace) == 1 and first is not None and name != first:
                continue
            arr = make()
            before = [content(f) for f in arr]
            with quiet():
                r = apply(name, arr, models)
            if r is None:
                continue
            rec.count("transitions")
            rec.count("traces")
            if name not in inplace:
                check(before == [content(f) for f in arr], lambda: f"{trace + [name]}: the initial array is modified", "modified")

            def again(name=name):
                return apply(name, make(), models)[0]

            explore(again, r[1], trace + [name])

    for k in range(4):
        explore(lambda: mod.ArrayOfVectorFieldsOnGrid([new(i)[0] for i in range(k)]), [new(i)[1] for i in range(k)], [f"{k} fields"])
    for bad in (3, "a", {}):
        try:
            mod.ArrayOfVectorFieldsOnGrid(bad)
        except TypeError:
            pass
        else:
            check(False, f"ArrayOfVectorFieldsOnGrid({bad!r}) accepted", "array")
    rec.sample(f"arrays, first operation {first}")


# ---------------------------------------------------------------- display


def case_display(rec, n, depth):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent

    mod = fields_module()
    fields = []
    for k in range(n):
        f, m = initial((6, 5), "", "none", "none")
        f.vx = f.vx + k
        fields.append(f)

    def shown(ax):
        return ax.collections[0].get_array(), ax.collections[1]

    def same(ax, f, what):
        c, q = shown(ax)
        check(np.allclose(np.ravel(c), f.compute_norm().ravel()), f"{what}: norm of another field", "display")
        check(np.allclose(np.ravel(q.U), f.vx.ravel()) and np.allclose(np.ravel(q.V), f.vy.ravel()), f"{what}: arrows of another field", "display")
        X, Y = np.meshgrid(f.x, f.y)
        check(np.allclose(q.X, X.ravel()) and np.allclose(q.Y, Y.ravel()), f"{what}: positions of the arrows", "display")

    same(fields[0].display(), fields[0], "display of a field")
    for ind in range(n):
        for seq in itertools.product(("up", "down"), repeat=depth):
            arr = mod.ArrayOfVectorFieldsOnGrid(fields)
            arr.set_timestep(0.1)
            ax = arr.display(ind)
            same(ax, fields[ind], f"display({ind})")
            cur = ind
            for button in seq:
                with quiet():
                    event = MouseEvent("scroll_event", ax.figure.canvas, 10, 10, button=button, step=1)
                    ax.figure.canvas.callbacks.process("scroll_event", event)
                cur = (cur + (1 if button == "up" else -1)) % n
                same(ax, fields[cur], f"display({ind}) of {n} fields then {seq}")
                rec.count("transitions")
                rec.count("traces")
            rec.count("states")
            rec.nontrivial((n, ind, seq))
            plt.close("all")


def case(rec, case):
    kind, *args = case
    globals()["case_" + kind](rec, *args)


def run(ctx):
    out = []
    shapes = ((6, 5), (5, 8), (9, 5), (6, 6), (7, 7))
    configs = [(s, "", "number", "none") for s in shapes]
    configs += [((6, 5), "y", "none", "none"), ((5, 6), "x", "field", "field"), ((6, 5), "xy", "number", "field")]
    names = list(operations(ctx.quick))
    if ctx.quick:
        for c in configs:
            out += [("explore", *c, 2, [n]) for n in names]
    else:
        for c in configs:
            out += [("explore", *c, 3, [n]) for n in names]
    for a in itertools.product((False, True), (False, True), ("none", "number"), (False, True)):
        out.append(("regularize", *a))
    firsts = ["append", "extend", "set", "del", "slice", "slice-step", "apply", "median", "median-valid", "gauss", "extract", "truncate", "square", "+f", "-f"]
    firsts += ["f+2", "1.5+f", "f-3", "f*2", "-0.5*f", "f/4"]
    out += [("arrays", f, 2 if ctx.quick else 3) for f in firsts]
    out += [("display", n, 2 if ctx.quick else 4) for n in (1, 3)]
    ctx.pmap(case, out, timeout=600, chunk=4)
