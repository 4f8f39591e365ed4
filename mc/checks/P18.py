"""P18: saved results can be loaded and are the same"""
import itertools
import os
from pathlib import Path

import numpy as np

from ..common import check, quiet, tmpdir
from ..data import write_png
from ..piving import PIV_CONFIGS, arrays, couple_arrays, differences, piv_params

LEVEL = "exploration"
RULE = (
    "every combination of the optional contents of the result objects (errors, wrong vectors, approximated / "
    "final / smoothed fields, 0 to 101 TPS subdomains, 1 to 11 passes, mask, types) is saved with the real code, loaded through "
    "every entry point and compared; chains of save / load / light of length 3; real results of 14 PIV configurations; fields on grids"
)
ASSUMPTIONS = ["arrays of float64 are saved as float32"]

ERRORS = {
    "none": None,
    "empty": {},
    "one": {3: "Correlation peak touching boundary."},
    "all": {
        0: "Correlation peak touching nan.",
        1: "correl < correl_min",
        5: "delta2 < displacement_max2",
        2: "diff neighbour too large (diff = 12.25)",
        4: "Bad im_crop shape.",
        6: "correl < correl_min + diff neighbour too large",
    },
}
CODES = [
    ("Correlation peak touching", 1),
    ("correl < correl_min", 2),
    ("delta2 < displacement_max2", 3),
    ("diff neighbour too large", 4),
]
KEYS = (
    "xs ys xs_smooth ys_smooth deltaxs deltays correls_max deltaxs_approx deltays_approx ixvecs_approx "
    "iyvecs_approx deltaxs_final deltays_final deltaxs_smooth deltays_smooth ixvecs_final iyvecs_final "
    "errors deltaxs_wrong deltays_wrong deltaxs_tps deltays_tps"
).split()


def make_result(seed, errors, wrong, interp, tps, dtype, couple, params, n=7):
    from fluidimage.data_objects.piv import HeavyPIVResults

    def arr(k, integer=False):
        a = (np.arange(n) * (k + 1) * 7 + 3 * seed + k) % 29 - 5.0
        if integer:
            return a.astype(int)
        a = (a + 0.125 * k).astype(dtype)
        a[(seed + k) % n] = np.nan
        return a

    r = HeavyPIVResults(
        deltaxs=arr(0), deltays=arr(1), xs=arr(2, True), ys=arr(3) if seed % 2 else arr(3, True),
        errors=ERRORS[errors], correls_max=arr(4), correls=None, couple=couple, params=params,
    )
    if wrong:
        r.deltaxs_wrong = {k: np.float32(k + 0.5) for k in (ERRORS[errors] or {})}
        r.deltays_wrong = {k: np.float32(-k) for k in (ERRORS[errors] or {})}
    for k, name in enumerate(("approx", "final")):
        if name in interp:
            for m, key in enumerate((f"deltaxs_{name}", f"deltays_{name}")):
                setattr(r, key, arr(10 + 5 * k + m))
            for m, key in enumerate((f"ixvecs_{name}", f"iyvecs_{name}")):
                setattr(r, key, arr(12 + 5 * k + m, True))
    if "smooth" in interp:
        for m, key in enumerate(("xs_smooth", "ys_smooth", "deltaxs_smooth", "deltays_smooth")):
            setattr(r, key, arr(30 + m))
    if tps is not None:
        r.deltaxs_tps = [np.arange(i % 3 + 2) + 100.0 * i for i in range(tps)]
        r.deltays_tps = [np.arange(i % 3 + 2) - 100.0 * i for i in range(tps)]
    return r


def check_pass(got, ref, what, n_rec=None, key="pass"):
    for k in KEYS:
        a = getattr(ref, k, None)
        if a is None:
            # (an absent dictionary or array)
            b = getattr(got, k, None)
            check(b is None, lambda: f"{what}: {k} = {b!r} appeared", f"{key}-{k}")
            continue
        check(hasattr(got, k), lambda: f"{what}: {k} not loaded", f"{key}-{k}")
        b = getattr(got, k)
        if isinstance(a, dict):
            check(isinstance(b, dict), f"{what}: {k}: {type(b)}", f"{key}-{k}")
            ia = {int(i): v for i, v in a.items()}
            ib = {int(i): v for i, v in b.items()}
            check(len(ib) == len(b) and set(ia) == set(ib), lambda: f"{what}: {k}: indices {sorted(ib)} != {sorted(ia)}", f"{key}-{k}")
            for i in ia:
                if isinstance(ia[i], str):
                    check(ia[i] == ib[i], lambda: f"{what}: {k}[{i}]: {ib[i]!r} != {ia[i]!r}", f"{key}-{k}")
                else:
                    check(np.allclose(ia[i], ib[i], equal_nan=True), lambda: f"{what}: {k}[{i}]: {ib[i]} != {ia[i]}", f"{key}-{k}")
        elif k.endswith("_tps"):
            check(len(a) == len(b), lambda: f"{what}: {k}: {len(b)} subdomains instead of {len(a)}", f"{key}-{k}")
            for i, (u, v) in enumerate(zip(a, b)):
                check(
                    np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=1e-5),
                    lambda: f"{what}: {k}: coefficients of the subdomain {i}: {v} instead of {u}",
                    f"{key}-tps-order",
                )
        else:
            check(np.shape(a) == np.shape(b), lambda: f"{what}: {k}: shapes {np.shape(b)} != {np.shape(a)}", f"{key}-{k}")
            check(np.allclose(a, b, rtol=1e-6, equal_nan=True), lambda: f"{what}: {k}: {b} != {a}", f"{key}-{k}")


def check_codes(path, tag, errors, what):
    import h5py

    if errors is None:
        return
    with h5py.File(path, "r") as f:
        g = f[tag]["errors"]
        keys = [int(i) for i in g["keys"][...]]
        codes = [int(i) for i in g["codes"][...]]
    check(len(keys) == len(codes) == len(errors), f"{what}: {len(codes)} codes for {len(errors)} errors", "codes")
    for k, c in zip(keys, codes):
        expected = next((n for s, n in CODES if errors[k].startswith(s)), 255)
        check(c == expected, f"{what}: code {c} for {errors[k]!r} (expected {expected})", "codes")


def make_couple(d, mask, shape=(10, 12)):
    from fluidimage.data_objects.piv import ArrayCouple

    ims = couple_arrays("a", shape)
    paths = [d / "im0.png", d / "im1.png"]
    for p, im in zip(paths, ims):
        if not p.exists():
            write_png(p, im)
    params = piv_params(mask__strcrop=mask)
    couple = ArrayCouple(names=("im0.png", "im1.png"), paths=paths, params_mask=params.mask)
    return couple, params, ims


def check_params(got, ref, what, path="params"):
    keys = set(ref._key_attribs)
    check(set(got._key_attribs) == keys, lambda: f"{what}: {path}: {sorted(got._key_attribs)} != {sorted(keys)}", "params")
    for k in keys:
        a, b = got[k], ref[k]
        if isinstance(a, (np.ndarray, list, tuple)) and isinstance(b, (np.ndarray, list, tuple)):
            same = np.array_equal(np.array(a), np.array(b))
        else:
            same = a == b or (isinstance(b, Path) and str(a) == str(b))
        check(bool(same), lambda: f"{what}: {path}.{k} = {a!r} instead of {b!r}", "params")
    tags = set(ref._tag_children)
    check(set(got._tag_children) == tags, lambda: f"{what}: {path}: children {got._tag_children}", "params")
    for t in tags:
        check_params(got[t], ref[t], what, f"{path}.{t}")


def check_meta(got, couple, params, ims, mask, what, arrays_too=True):
    from fluidimage.data_objects.piv import get_slices_from_strcrop

    check_params(got.params, params, what)
    check(tuple(got.couple.names) == tuple(couple.names), f"{what}: names {got.couple.names}", "names")
    check([Path(p) for p in got.couple.paths] == [Path(p) for p in couple.paths], f"{what}: paths {got.couple.paths}", "paths")
    check(tuple(got.couple.shape_images) == ims[0].shape, f"{what}: shape_images {got.couple.shape_images}", "shape")
    if arrays_too:
        loaded = got.couple.get_arrays()
        for a, b in zip(loaded, ims):
            if mask:
                rows, cols = mask.split(",")
                sl = tuple(slice(*(int(i) if i.strip() else None for i in part.split(":"))) for part in (rows, cols))
                b = b[sl]
            check(np.array_equal(a, b), f"{what}: images of the loaded couple", "couple-arrays")


def case_synthetic(rec, errors, wrong, interp, tps, dtype, nb_passes, mask):
    from fluidimage import create_object_from_file
    from fluidimage.data_objects.piv import HeavyPIVResults, LightPIVResults, MultipassPIVResults

    with tmpdir("rt") as d:
        couple, params, ims = make_couple(d, mask)
        params.multipass.number = nb_passes
        what = f"errors={errors} wrong={wrong} {interp} tps={tps} {dtype} passes={nb_passes} mask={mask}"
        res = MultipassPIVResults()
        for ip in range(nb_passes):
            last = ip == nb_passes - 1
            inter = [i for i in interp if (i != "approx" or not last) and (i not in ("final", "smooth") or last)]
            res.append(make_result(ip, errors, wrong, inter, tps if last else None, dtype, couple, params))
        out = d / "out"
        out.mkdir()
        with quiet():
            path = Path(res.save(str(out)))
        check(path.exists() and path.parent == out, f"{what}: saved in {path}", "path")
        for ip in range(nb_passes):
            check_codes(path, f"piv{ip}", ERRORS[errors], what)
        loaders = [("MultipassPIVResults", lambda: MultipassPIVResults(str_path=str(path)))]
        if tps in (None, 2) and dtype == "float32":
            loaders += [
                ("create_object_from_file", lambda: create_object_from_file(str(path))),
                ("Path", lambda: MultipassPIVResults(str_path=path)),
            ]
        for name, loader in loaders:
            got = loader()
            w = f"{what} ({name})"
            check(len(got.passes) == nb_passes, f"{w}: {len(got.passes)} passes", "nb-passes")
            check_meta(got, couple, params, ims, mask, w)
            for ip in range(nb_passes):
                check_pass(got.passes[ip], res.passes[ip], f"{w} pass {ip}")
                check(got[ip] is got.passes[ip] and getattr(got, f"piv{ip}") is got.passes[ip], f"{w}: access", "access")
            rec.count("evaluations")
        # save again, load again
        other = d / "again"
        other.mkdir()
        path2 = Path(got.save(str(other)))
        check(path2.name == path.name and path2.parent == other, f"{what}: saved again in {path2}", "path-again")
        got2 = MultipassPIVResults(str_path=str(path2))
        for ip in range(nb_passes):
            check_pass(got2.passes[ip], res.passes[ip], f"{what} (save/load/save/load) pass {ip}", key="again")
        check_meta(got2, couple, params, ims, mask, what + " (again)")
        # explicit file name
        path3 = Path(got2.save(str(d / "explicit.h5")))
        check(path3 == d / "explicit.h5" and path3.exists(), f"{what}: explicit path: {path3}", "path-explicit")
        check_pass(MultipassPIVResults(str_path=str(path3)).passes[-1], res.passes[-1], what + " explicit", key="again")
        # one pass alone
        sub = d / "heavy"
        sub.mkdir()
        with quiet():
            path4 = Path(res.passes[0].save(str(sub)))
        heavy = HeavyPIVResults(str_path=str(path4))
        check_pass(heavy, res.passes[0], f"{what} (HeavyPIVResults)", key="heavy")
        check_meta(heavy, couple, params, ims, mask, what + " (heavy)")
        # light results
        for origin, obj in (("computed", res), ("loaded", got)):
            for ip in list(range(nb_passes)) + [-1]:
                ref = res.passes[ip]
                kind = "final" if ip == -1 else "approx"
                if getattr(ref, f"deltaxs_{kind}", None) is None:
                    continue
                if ip == nb_passes - 1:
                    continue
                light = obj.make_light_result(ip)
                w = f"{what}: light result of the pass {ip} ({origin})"
                check_light(light, ref, kind, w)
                if not hasattr(light, "file_name"):
                    light.file_name = "r.h5"
                sub = d / f"light{ip}{origin}"
                sub.mkdir()
                light.save(str(sub))
                files = os.listdir(sub)
                check(len(files) == 1 and files[0].endswith("_light.h5"), f"{w}: files {files}", "light-files")
                back = LightPIVResults(str_path=str(sub / files[0]))
                check_light(back, ref, kind, w + " (loaded)")
                check_meta(back, couple, params, ims, mask, w)
                rec.count("evaluations")
        if "final" in interp:
            back = LightPIVResults(str_path=str(path))
            check_light(back, res.passes[-1], "final", f"{what}: LightPIVResults from the multipass file")
        rec.nontrivial(what)


def check_light(light, ref, kind, what):
    for a, b in (("deltaxs", "deltaxs"), ("deltays", "deltays"), ("ixvecs", "ixvecs"), ("iyvecs", "iyvecs")):
        got = getattr(light, f"{a}_final")
        exp = getattr(ref, f"{b}_{kind}")
        check(np.allclose(got, exp, equal_nan=True), lambda: f"{what}: {a}: {got} != {exp}", f"light-{a}")


def case_real(rec, cfg, letter):
    """real PIV results"""
    from fluidimage.data_objects.piv import ArrayCouple, LightPIVResults, MultipassPIVResults
    from fluidimage.postproc.piv import PIV2d, get_grid_pixel_from_piv_file
    from fluidimage.works.piv import WorkPIV

    with tmpdir("real") as d:
        params = piv_params(**PIV_CONFIGS[cfg])
        ims = couple_arrays(letter)
        for i, im in enumerate(ims):
            write_png(d / f"im{i}.png", im)
        couple = ArrayCouple(names=("im0.png", "im1.png"), paths=(d / "im0.png", d / "im1.png"))
        work = WorkPIV(params)
        what = f"{cfg} {letter}"
        with quiet():
            res = work.calcul(couple)
            path = res.save(str(d))
        got = MultipassPIVResults(str_path=path)
        check(len(got.passes) == params.multipass.number, f"{what}: passes", "nb-passes")
        for ip, r in enumerate(res.passes):
            check_pass(got.passes[ip], r, f"{what} pass {ip}", key="real")
            check_codes(path, f"piv{ip}", r.errors, what)
        check_meta(got, couple, params, ims, params.mask.strcrop, what)
        diff = differences(arrays(got.couple.get_arrays()), arrays(couple.get_arrays()))
        check(diff is None, f"{what}: images: {diff}", "couple-arrays")
        # grids recomputed from the file
        for ip in list(range(len(res.passes))) + [-1]:
            w = work.works_piv[ip]
            for name, (xs, ys) in (
                ("method", got.get_grid_pixel(ip)),
                ("function", get_grid_pixel_from_piv_file(path, ip)),
            ):
                # in the same coordinates as the results (original images)
                r = res.passes[ip]
                ex, ey = w._xyoriginalimage_from_xymasked(w.ixvecs, w.iyvecs)
                if getattr(r, "ixvecs_final", None) is not None:
                    check(
                        np.array_equal(ex, np.unique(r.ixvecs_final)) and np.array_equal(ey, np.unique(r.iyvecs_final)),
                        lambda: f"{what}: positions of the pass {ip}: {ex} {ey} and {r.ixvecs_final} {r.iyvecs_final}",
                        "grid",
                    )
                check(
                    np.array_equal(xs, ex) and np.array_equal(ys, ey),
                    lambda: f"{what}: grid of the pass {ip} ({name}): {xs} {ys} instead of {ex} {ey}",
                    "grid",
                )
        # fields on a grid
        last = res.passes[-1]
        if getattr(last, "deltaxs_final", None) is None:
            return
        with quiet():
            light = res.make_light_result()
            light.file_name = "light.h5"
            light.save(str(d))
            origins = [("multipass", path), ("light", d / "light_light.h5")]
            for name, p in origins:
                f = PIV2d.from_file(p)
                check_field_vs_flat(f, last, f"{what}: PIV2d from {name}")
                pf = d / f"field_{name}.h5"
                f.save(pf)
                g = PIV2d.from_file(pf)
                check_field_vs_flat(g, last, f"{what}: PIV2d from {name} saved and loaded")
                check_params(g.params, f.params, what)
        rec.count("evaluations")
        rec.nontrivial((cfg, letter))


def check_field_vs_flat(f, last, what):
    """each vector at its position"""
    x, y = list(np.round(f.x, 6)), list(np.round(f.y, 6))
    check(all(np.diff(f.x) > 0) and all(np.diff(f.y) > 0), f"{what}: coordinates not sorted", "field-sorted")
    n = 0
    for xx, yy, u, v in zip(last.ixvecs_final, last.iyvecs_final, last.deltaxs_final, last.deltays_final):
        i, j = y.index(round(float(yy), 6)), x.index(round(float(xx), 6))
        check(
            np.allclose([f.vx[i, j], f.vy[i, j]], [u, v], rtol=1e-5, equal_nan=True),
            lambda: f"{what}: at x={xx}, y={yy}: {f.vx[i, j]}, {f.vy[i, j]} instead of {u}, {v}",
            "field-values",
        )
        n += 1
    check(n == len(x) * len(y), f"{what}: {n} vectors for {len(x)} x {len(y)} positions", "field-size")


def case_field(rec, z, vz, flip, with_params, names):
    """VectorFieldOnGrid: save and load"""
    from fluidimage.postproc.piv import PIV2d
    from fluidimage.postproc.vector_field import VectorFieldOnGrid

    ny, nx = 3, 4
    zs = {
        "none": None,
        "int": 2,
        "float": 0.5,
        "0d": np.array(1.5),
        "1d": np.array([0.0, 1.0]),
        "2d": np.arange(12.0).reshape(ny, nx),
    }
    vzs = {"nan": np.nan, "number": 3.0, "2d": np.arange(12.0).reshape(ny, nx) ** 2}
    vx = np.arange(12.0).reshape(ny, nx)
    vy = -(np.arange(12.0).reshape(ny, nx) ** 2)
    x = np.array([1.0, 2, 4, 5])
    y = np.array([0.0, 3, 5])
    arrs = [vx, vy, zs[z], vzs[vz]]
    if "x" in flip:
        x = x[::-1]
    if "y" in flip:
        y = y[::-1]
    kw = {}
    if names:
        kw = dict(namevx="u", unitvx="m/s", namevy="v", unitvy="mm/s", namex="X", unitx="mm", namey="Y", unity="cm", name="é test", history=["a", "b"])
    if with_params:
        kw["params"] = piv_params()
    for cls in (VectorFieldOnGrid, PIV2d):
        with tmpdir("field") as d:
            f = cls(x, y, arrs[2], vx, vy, arrs[3], **kw)
            what = f"{cls.__name__} z={z} vz={vz} flip={flip} names={names}"
            # values at the right positions
            for i, yy in enumerate(y):
                for j, xx in enumerate(x):
                    ii, jj = list(f.y).index(yy), list(f.x).index(xx)
                    check(f.vx[ii, jj] == vx[i, j] and f.vy[ii, jj] == vy[i, j], f"{what}: orientation", "orientation")
                    if vz == "2d":
                        check(f.vz[ii, jj] == vzs["2d"][i, j], f"{what}: orientation of vz", "orientation")
                    if z == "2d":
                        check(f.z[ii, jj] == zs["2d"][i, j], f"{what}: orientation of z", "orientation")
            f.save(d / "f.h5")
            g = cls.from_file(d / "f.h5")
            for k in ("x", "y", "vx", "vy", "vz", "z"):
                a, b = getattr(f, k), getattr(g, k)
                if a is None:
                    check(b is None, f"{what}: {k} = {b}", f"field-{k}")
                else:
                    check(np.shape(a) == np.shape(b) and np.allclose(a, b, equal_nan=True), f"{what}: {k}: {b} != {a}", f"field-{k}")
            check(list(g.history) == list(f.history), f"{what}: history {g.history} != {f.history}", "field-history")
            for k in ("name", *(a + b for a in ("name", "unit") for b in ("x", "y", "z", "vx", "vy", "vz"))):
                check(getattr(g, k) == getattr(f, k), f"{what}: {k}: {getattr(g, k)!r} != {getattr(f, k)!r}", "field-names")
            check((f.params is None) == (g.params is None), f"{what}: params", "field-params")
            if f.params is not None:
                check_params(g.params, f.params, what)
            check(f.is_grid_regular == g.is_grid_regular and f.shape == g.shape, f"{what}: grid", "field-grid")
            rec.count("evaluations")
            rec.nontrivial(what)


def case_uvmat(rec, cfg):
    import h5py

    from fluidimage.works.piv import WorkPIV

    with tmpdir("uvmat") as d:
        with quiet():
            work = WorkPIV(piv_params(**PIV_CONFIGS[cfg]))
            res = work.calcul({"arrays": couple_arrays("a"), "names": ("a.png", "b.png")})
            path = res.save(str(d), out_format="uvmat")
        with h5py.File(path, "r") as f:
            for i, r in enumerate(res.passes):
                n = i + 1
                for k, a in (
                    ("X", r.xs),
                    ("Y", r.ys),
                    ("U", np.nan_to_num(r.deltaxs)),
                    ("V", np.nan_to_num(r.deltays)),
                    ("C", r.correls_max),
                    ("FF", np.isnan(r.deltaxs)),
                ):
                    check(np.allclose(f[f"Civ{n}_{k}"][...], a, equal_nan=True), f"{cfg}: uvmat Civ{n}_{k}", "uvmat")
        rec.count("evaluations")
        rec.nontrivial(("uvmat", cfg))


def case_h5image(rec, dtype, name):
    """preprocessed images saved as h5"""
    from fluiddyn.io.image import imread_h5
    from fluidimage.works.preproc import WorkPreproc
    from fluidimage.data_objects.preproc import PreprocResults

    from fluidimage import ParamContainer

    with tmpdir("h5im") as d:
        ims = {}
        for i in range(3):
            a = (np.arange(20).reshape(4, 5) * (i + 1)).astype(dtype)
            if a.dtype.kind == "f":
                a[0, 0] = 300.0
            ims[f"{name}{i}.png"] = a
        params = WorkPreproc.create_default_params("python")
        params._set_child("saving", attribs=dict(format="h5"))
        res = PreprocResults(params)
        res.data.update(ims)
        with quiet():
            res.save(str(d))
        files = sorted(os.listdir(d))
        check(len(files) == 3, f"{files}", "h5-files")
        for f in files:
            stem = f.split(".")[0]
            a = ims[stem + ".png"]
            with quiet():
                b = imread_h5(str(d / f))
            check(np.array_equal(b, a), f"h5 image {f} ({dtype}): {b} != {a}", "h5-image")
        rec.count("evaluations")
        rec.nontrivial(("h5", dtype, name))


def cases(quick):
    out = []
    interps = [c for n in range(4) for c in itertools.combinations(("approx", "final", "smooth"), n)]
    tps = (None, 1, 2, 11, 12) if quick else (None, 1, 2, 9, 10, 11, 12, 101)
    passes = (1, 2, 3) if quick else (1, 2, 3, 4)
    for errors in ERRORS:
        for wrong in (False, True):
            for interp in interps:
                for t in tps:
                    for dtype in ("float32", "float64"):
                        for nb in passes:
                            if quick and (nb == 3) + (dtype == "float64") + (t in (2, 11)) + (errors == "one") > 1:
                                continue
                            mask = {1: None, 2: "1:9, 2:", 3: ":8, :"}.get(nb)
                            out.append(("synthetic", errors, wrong, interp, t, dtype, nb, mask))
    for mask in (None, "1:9, 2:", ":8, :", "2:, :10", " 0:10 , 0:12 "):
        out.append(("synthetic", "all", True, ("approx", "final", "smooth"), 2, "float32", 2, mask))
    out.append(("synthetic", "all", True, ("approx", "final", "smooth"), 11, "float32", 11, None))
    out.append(("synthetic", "all", True, ("approx", "final", "smooth"), None, "float32", 12, None))
    for cfg in PIV_CONFIGS:
        for letter in "ab" if quick else "abn":
            out.append(("real", cfg, letter))
    for z in ("none", "int", "float", "0d", "1d", "2d"):
        for vz in ("nan", "number", "2d"):
            for flip in ("", "x", "y", "xy"):
                if z == "1d" and flip:
                    continue
                for with_params in (False, True):
                    for names in (False, True):
                        out.append(("field", z, vz, flip, with_params, names))
    for cfg in ("fftw", "npfft-2", "mask", "mask-fix"):
        out.append(("uvmat", cfg))
    for dtype in ("uint8", "uint16", "float32", "float64"):
        for name in ("im", "a_b-"):
            out.append(("h5image", dtype, name))
    return out


def case(rec, case):
    kind, *args = case
    dict(synthetic=case_synthetic, real=case_real, field=case_field, uvmat=case_uvmat, h5image=case_h5image)[kind](rec, *args)
    rec.sample(case)


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=120)
