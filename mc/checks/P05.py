"""P05: splitting a computation among processes"""
import re
from pathlib import Path

from mc import data
from mc.common import Violation, check, quiet, tmpdir

LEVEL = "exploration"
RULE = (
    "All ranges/lists up to the bounds x all numbers of parts; all small image directories x "
    "selection parameters x numbers of processes x sets of already computed results, through the "
    "real splitters, the xml files given to the processes and the real topologies. A case is "
    "non trivial when at least two parts are non empty."
)
ASSUMPTIONS = ["bounds: ranges of up to 12 elements, steps 1..5, up to 8 parts, up to 8 images"]


def check_parts(parts, whole, n, what):
    flat = [x for p in parts for x in p]
    check(flat == list(whole), lambda: f"{what}: parts {parts} do not cover exactly {list(whole)} in order", "cover")
    sizes = [len(p) for p in parts if len(p)]
    check(not sizes or max(sizes) - min(sizes) <= 1, lambda: f"{what}: unbalanced parts {parts}", "balance")
    check(len(sizes) == min(n, len(flat)), lambda: f"{what}: {len(sizes)} non empty parts for {len(flat)} items and {n} processes", "nparts")


def case_range(rec, case):
    from fluidimage.topologies.splitters import split_range

    _, start, quick = case
    for length in range(0, 13):
        for step in range(1, 6):
            for extra in range(step if length else 1):
                stop = start + length * step - (extra if length else 0)
                for n in range(1, 9):
                    ranges = split_range(start, stop, step, n)
                    parts = [list(range(*r)) for r in ranges]
                    check_parts(parts, range(start, stop, step), n, f"split_range{(start, stop, step, n)}")
                    check(len(ranges) == n, f"split_range{(start, stop, step, n)} gives {len(ranges)} ranges", "nranges")
                    rec.count("evaluations")
                    if sum(map(bool, parts)) > 1:
                        rec.nontrivial((start, stop, step, n))


def case_list(rec, case):
    from fluidimage.topologies.splitters import split_list

    for length in range(0, 14):
        for n in range(1, 10):
            for seq in (list(range(5, 5 + length)), [(i, i % 2) for i in range(length)], [f"k{i}" for i in range(length)]):
                parts = split_list(seq, n)
                check_parts([list(p) for p in parts], seq, n, f"split_list({seq}, {n})")
                rec.count("evaluations")
                if length > 1 and n > 1:
                    rec.nontrivial((length, n, str(seq[0])))


def keys_and_inputs(topology):
    out = data.selected(topology)
    if len(out) == 2:
        couples, paths = out
        return [(k, tuple(v)) for k, v in couples], dict(paths)
    return [(k, v) for k, v in out[0]], None


def touch_results(kind, topology, which):
    """create (empty) result files for the items `which` (indices in the selection)"""
    from fluidimage.data_objects.piv import get_name_bos, get_name_piv
    from fluidimage.data_objects.preproc import get_name_preproc

    if kind in data.FROM_SERIES:
        for i, (ind, serie) in enumerate(topology.series.items()):
            if i in which:
                if kind == "preproc":
                    name = get_name_preproc(serie, serie.get_name_arrays(), ind, topology.series.nb_series, "img")
                else:
                    name = get_name_piv(serie)
                (topology.path_dir_result / name).touch()
        if hasattr(topology.series, "index_series"):
            del topology.series.index_series
    else:
        for i, name in enumerate(topology.serie.get_name_arrays()):
            if i in which:
                if kind == "bos":
                    name = get_name_bos(name, topology.serie)
                (topology.path_dir_result / name).touch()


def first(name):
    """first index of an image"""
    return re.search(r"\d+", name).group()


def case_splitter(rec, case):
    _, kind, names, kw, nprocs, done = case
    T = data.topo_class(kind)
    how = "complete" if done is not None else "recompute"
    with tmpdir() as d, quiet():
        data.make_images(d / "im", names, shape=(16, 16))

        def params(how=how):
            return data.make_params(kind, d / "im", how, d / "res", **kw)

        if done:
            touch_results(kind, T(params()), done)
        whole, whole_inputs = keys_and_inputs(T(params()))
        for n in nprocs:
            for use_topo in (True, False) if (how == "recompute" and kind != "bos") else (True,):
                topo = T(params())
                from copy import deepcopy

                splitter = T.Splitter(deepcopy(topo.params), n, topo if use_topo else None)
                if how == "complete":
                    (d / f"idx{n}").mkdir()
                    splitter.save_indices_files(d / f"idx{n}")
                parts, inputs = [], {}
                for ip, p in enumerate(splitter.iter_over_new_params()):
                    p = data.reload_xml(p, d / f"p{n}_{use_topo}_{ip}.xml")
                    t = T(p)
                    check(t.path_dir_result == d / "res", f"a part would save in {t.path_dir_result}", "dir")
                    if kind == "bos":
                        check(Path(t.path_reference).name == Path(topo.path_reference).name,
                              f"a part uses another reference: {t.path_reference}", "reference")
                    keys, inp = keys_and_inputs(t)
                    check(keys or kind == "bos", "a part without anything to do", "empty-part")
                    parts.append(keys)
                    inputs.update(inp or {})
                what = f"{kind} {kw} {len(names)} images n={n} done={done}"
                if kind != "bos" and how == "recompute" and kind not in data.FROM_SERIES and len({first(k) for k in names}) < len(names):
                    # the images with the same first index stay together
                    check([k for p in parts for k in p] == whole, f"{what}: {parts} instead of {whole}", "cover")
                    groups = [sorted({first(k[0]) for k in p}) for p in parts]
                    check_parts(groups, sorted({first(k[0]) for k in whole}), n, what)
                    check(splitter.num_expected_results == len(whole), f"{what}: expected {splitter.num_expected_results}", "expected")
                elif kind == "bos" and how == "recompute":
                    # (the reference image, which is not processed, may be counted)
                    flat = [k for p in parts for k in p]
                    check(flat == whole, f"{what}: {parts} instead of {whole}", "cover")
                    sizes = [len(p) for p in parts]
                    check(not sizes or max(sizes) - min(sizes) <= 2, f"{what}: unbalanced {parts}", "balance")
                    check(len(parts) <= n, f"{what}: too many parts", "nparts")
                else:
                    check_parts(parts, whole, n, what)
                    check(splitter.num_expected_results == len(whole),
                          f"{what}: {splitter.num_expected_results} results announced for {len(whole)} items", "expected")
                if whole_inputs is not None:
                    check(inputs == whole_inputs, f"{what}: input images {sorted(inputs)} != {sorted(whole_inputs)}", "inputs")
                rec.count("evaluations")
                if sum(map(bool, parts)) > 1:
                    rec.nontrivial((kind, tuple(names), repr(kw), n, done, use_topo))
    rec.sample(dict(kind=kind, kw=kw, n_images=len(names), selected=[str(k) for k, _ in whole][:6], last_parts=[len(p) for p in parts]))


def case(rec, case):
    globals()["case_" + case[0]](rec, case)


def subsets(n, quick):
    full = range(n)
    out = {(), tuple(full)}
    for m in range(1 << n):
        s = tuple(i for i in full if m >> i & 1)
        if n <= 4 or not quick or len(s) in (1, n - 1) or m % 5 == 2:
            out.add(s)
    return sorted(out)


def cases(quick):
    out = [("range", s, quick) for s in (0, 1, 2, 3, 7)]
    out.append(("list",))
    nprocs = (1, 2, 3, 5) if quick else (1, 2, 3, 4, 5, 7, 9)
    for n in (2, 3, 5, 7) if quick else range(2, 10):
        names = data.names_1d(n, start=n % 3)
        for kw in (
            {},
            dict(ind_start=(n % 3) + (1 if n > 2 else 0)),
            dict(ind_step=2),
            dict(ind_step=3, ind_stop=n % 3 + n - 1),
            dict(str_subset="i:i+1"),
        ):
            out.append(("splitter", "piv" if kw.get("str_subset") is None else "optical_flow", names, kw, nprocs, None))
        out.append(("splitter", "preproc", names, {}, nprocs, None))
        if n > 2:
            out.append(("splitter", "preproc", names, dict(str_subset="i:i+3", ind_start=n % 3), nprocs, None))
        i0 = n % 3
        for kw in ({}, dict(str_subset=f"{i0}:{i0 + n - 1}"), dict(str_subset=f"{i0}:{i0 + n}:2"), dict(str_subset=f"{i0}:")):
            for kind in ("im2im", "bos", "mean"):
                out.append(("splitter", kind, names, kw, nprocs, None))
    out.append(("splitter", "im2im", data.names_1d(3), dict(str_subset="1"), (1, 2), None))
    for n in (2, 3) if quick else (2, 3, 4, 5):
        names = data.names_2d(n, start=1)
        for kw in (dict(str_subset="i, 0:2"), dict(str_subset="i:i+2, 0"), dict(str_subset="i:i+2, 1"), dict(str_subset="pairs", ind_start=0)):
            out.append(("splitter", "piv", names, kw, nprocs, None))
        for kw in ({}, dict(str_subset="1:, 0"), dict(str_subset="1:, 1:2"), dict(str_subset=f"1:{1 + n}:2, :"), dict(str_subset="1, :")):
            for kind in ("im2im", "mean", "bos"):
                out.append(("splitter", kind, names, kw, nprocs, None))
    # many values of the second (and third) index
    def bounds(a, b):
        """a slice for each class of starts, stops and steps in a range of values"""
        out = [":", f"{a}", f"{b - 1}", f"{a}:{b - 1}"]
        for start in (a, a + 1):
            for stop in (b, b - 1):
                for step in (2, 3):
                    out.append(f"{start}:{stop}:{step}")
        return out

    for n in (2, 3) if quick else (2, 3, 4):
        names = data.names_2d(n, start=1, letters="abcde")
        for s0 in (":", "2:", "2", f"1:{1 + n}:2"):
            for s1 in bounds(0, 5):
                for kind in ("im2im",) if quick and n == 3 else ("im2im", "mean", "bos"):
                    out.append(("splitter", kind, names, dict(str_subset=f"{s0}, {s1}"), nprocs, None))
    names = [f"im_{i}_{j:02d}_{k}.png" for i in (1, 2, 3) for j in range(7, 12) for k in range(3)]
    for s1 in bounds(7, 12):
        for s2 in (":", "1", "0:3:2", "1:3"):
            for s0 in (":",) if quick else (":", "2:", "3", "1:4:2"):
                out.append(("splitter", "im2im", names, dict(str_subset=f"{s0}, {s1}, {s2}"), nprocs, None))
    n = 5 if quick else 7
    for kind, nn in (("piv", n + 1), ("preproc", n), ("im2im", n), ("bos", n)):
        for done in subsets(n, quick):
            out.append(("splitter", kind, data.names_1d(nn), {}, nprocs, done))
    for done in subsets(4, quick):
        out.append(("splitter", "im2im", data.names_2d(2), {}, nprocs, done))
        out.append(("splitter", "piv", data.names_2d(4, start=1), dict(str_subset="i, 0:2"), nprocs, done))
        out.append(("splitter", "piv", data.names_1d(8), dict(ind_step=2), nprocs, done))
    return out


def run(ctx):
    ctx.pmap(case, cases(ctx.quick), timeout=200)
