"""P29: the displays and viewers show the data asked for, after any sequence of actions"""
import itertools
import os
import re
from collections import deque
from pathlib import Path
from types import SimpleNamespace

import numpy as np

from .. import data, piving
from ..common import check, quiet, tmpdir

LEVEL = "model_checking"
RULE = (
    "Model: a small state machine per viewer (image shown, selected vector, index of the file, step, limits of the colors, images in memory, "
    "versions of the files). Every transition of the reachable states of the model is executed by the real viewer (matplotlib events), and all "
    "the sequences of actions up to a depth from a new viewer; after each action what is shown (images visible, limits, colorbar, titles, texts, "
    "arrows, correlation) is compared with the model, and the data given to the viewer with its first value."
)
ASSUMPTIONS = [
    "figures of the Agg backend: the events are given to the callbacks of the canvas, the drawings are recorded but not rendered",
]


# ------------------------------------------------------------------ events


class Recorder:
    """replaces the drawing of a canvas: what was shown at the last drawing"""

    def __init__(self, fig, view):
        self.view = view
        self.last = None
        self.pending = True
        self.nb = 0
        fig.canvas.draw = self.draw
        fig.canvas.draw_idle = self.draw_idle

    def draw(self, *args, **kwargs):
        self.nb += 1
        self.pending = False
        self.last = self.view()

    def draw_idle(self, *args, **kwargs):
        self.pending = True

    def shown(self):
        return self.view() if self.pending else self.last


def key(fig, name, ax=None):
    from matplotlib.backend_bases import KeyEvent

    x, y = (0, 0) if ax is None else ax.transAxes.transform((0.5, 0.5))
    event = KeyEvent("key_press_event", fig.canvas, name, x, y)
    fig.canvas.callbacks.process("key_press_event", event)


def click(fig, ax):
    from matplotlib.backend_bases import MouseEvent

    x, y = ax.transAxes.transform((0.5, 0.5))
    for name in ("button_press_event", "button_release_event"):
        event = MouseEvent(name, fig.canvas, x, y, button=1)
        fig.canvas.callbacks.process(name, event)


def pick(fig, artist, ind):
    from matplotlib.backend_bases import MouseEvent, PickEvent

    mouse = MouseEvent("button_press_event", fig.canvas, 1, 1, button=1)
    fig.canvas.callbacks.process("pick_event", PickEvent("pick_event", fig.canvas, mouse, artist, ind=np.array(ind)))


class Shows:
    """number of times that the figures have been shown to the user"""

    nb = 0

    @classmethod
    def install(cls):
        import matplotlib.pyplot as plt

        def show(*args, **kwargs):
            cls.nb += 1

        plt.switch_backend("agg")
        plt.show = show


def check_layout(machine, fig, axes, images=()):
    """figure shown, widgets in the figure and apart, images with their pixels at the right positions"""
    fail_if(Shows.nb < 1, machine, "figure not shown", (), "layout-show")
    Shows.nb = 0
    boxes = []
    for ax in axes:
        x0, y0, x1, y1 = ax.get_position().extents
        fail_if(x0 < 0 or y0 < 0 or x1 > 1 or y1 > 1, machine, f"widget out of the figure {(x0, y0, x1, y1)}", (), "layout-widgets")
        for a0, b0, a1, b1 in boxes:
            apart = x1 <= a0 + 1e-9 or a1 <= x0 + 1e-9 or y1 <= b0 + 1e-9 or b1 <= y0 + 1e-9
            fail_if(not apart, machine, f"overlapping widgets {(x0, y0, x1, y1)} {(a0, b0, a1, b1)}", (), "layout-widgets")
        boxes.append((x0, y0, x1, y1))
    for im in images:
        ny, nx = im.get_array().shape[:2]
        fail_if(tuple(im.get_extent()) != (0, nx, ny, 0), machine, f"extent of an image {im.get_extent()} for {(ny, nx)}", (), "layout-image")
        ax = im.axes
        lims = (*ax.get_xlim(), *ax.get_ylim())
        fail_if(not np.allclose(lims, (0, nx, ny, 0)), machine, f"limits of the axes {lims} for {(ny, nx)}", (), "layout-image")


def find_axes(fig, text):
    """axes of the button or of the text box with this label"""
    for ax in fig.axes:
        if any(t.get_text() == text for t in ax.texts):
            return ax
    raise KeyError(text)


# ------------------------------------------------------------------ machines


class Machine:
    """new() -> application and state ; step(state, action) -> state ; apply(app, action) ; check(app, state, history)"""

    def all_transitions(self, rec, limit=None):
        """every transition of the reachable states, on one application"""
        app, state = self.new()
        self.check(app, state, ())
        todo = {}  # state -> actions not done
        history = []
        nb = 0

        def actions(s):
            if s not in todo:
                acts = list(self.actions(s))
                # (another first action for each state, useful if the walk is bounded)
                k = (7 * len(todo)) % len(acts)
                todo[s] = acts[k:] + acts[:k]
                rec.count("states")
            return todo[s]

        while True:
            # nearest state (in the model) with something to do
            queue, seen, found = deque([(state, ())]), {state}, None
            while queue:
                s, path = queue.popleft()
                if actions(s):
                    found = path
                    break
                for a in self.actions(s):
                    t = self.step(s, a)
                    if t not in seen:
                        seen.add(t)
                        queue.append((t, path + (a,)))
            if found is None or (limit and nb > limit):
                break
            s = state
            for a in found:
                s = self.step(s, a)
            for a in (*found, todo[s].pop()):
                history.append(a)
                state = self.do(app, state, a, history[-12:])
                nb += 1
        rec.count("transitions", nb)
        rec.count("traces")
        self.end(app)
        return nb, sum(map(len, todo.values()))

    def do(self, app, state, action, history):
        new = self.step(state, action)
        with quiet():
            self.apply(app, action, state)
        self.check(app, new, tuple(history))
        return new

    def sequences(self, rec, depth):
        """every sequence of actions from a new application"""

        def rec_states(state, n):
            if n == 0:
                yield ()
                return
            for a in self.actions(state):
                for rest in rec_states(self.step(state, a), n - 1):
                    yield (a, *rest)

        _, first = self.initial()
        for seq in rec_states(first, depth):
            app, state = self.new()
            self.check(app, state, ())
            for i, a in enumerate(seq):
                state = self.do(app, state, a, seq[: i + 1])
            rec.count("transitions", len(seq))
            rec.count("traces")
            rec.nontrivial((self.name, seq))
            self.end(app)

    def initial(self):
        app, state = self.new()
        self.end(app)
        return None, state

    def end(self, app):
        import matplotlib.pyplot as plt

        plt.close("all")


def fail_if(cond, machine, what, history, key_):
    check(not cond, f"{machine.name}: {what} after {list(history)}", key_)


# ------------------------------------------------------------------ display of PIV results

PIV = {
    "one": dict(crop=(12, 16), piv0__nb_peaks_to_search=2, piv0__displacement_max=5, fix__correl_min=0.35),
    "two": dict(crop=(16, 12), piv0__grid__overlap=0.1, number=2, multipass__coeff_zoom=[2], fix__threshold_diff_neighbour=1.5, fix__correl_min=0.2),
    "two-tps": dict(
        crop=(12, 16), piv0__grid__overlap=0.1, number=2, multipass__coeff_zoom=[2], multipass__use_tps=True, multipass__subdom_size=20, fix__correl_min=0.3,
        piv0__nb_peaks_to_search=3, fix__threshold_diff_neighbour=1.0, piv0__displacement_max="50%",
    ),
}
SHAPE = (30, 36)


def piv_results(name, path):
    from fluidimage.data_objects.piv import ArrayCouple
    from fluidimage.piv import Work

    kw = dict(PIV[name])
    im0 = piving.particles(SHAPE, 3)
    im1 = piving.particles(SHAPE, 3, (1.3, -0.6))
    im1[:10, 20:] = piving.particles(SHAPE, 11)[:10, 20:]  # wrong vectors
    im0[20:, :14] = 0  # no correlation
    paths = []
    for i, im in enumerate((im0, im1)):
        paths.append(Path(path) / f"im{i}.png")
        data.write_png(paths[-1], im.astype(np.uint8))
    params = piving.piv_params(**kw)
    with quiet():
        work = Work(params)
        couple = ArrayCouple(names=[p.name for p in paths], arrays=[im0.astype(np.uint8), im1.astype(np.uint8)], paths=paths)
        results = work.calcul(couple)
    for r in results.passes:
        # some peaks replaced by secondary peaks (rare in such small images)
        if not getattr(r, "replaced_vectors", None):
            ok = [i for i in range(r.xs.size) if i not in r.errors]
            r.replaced_vectors = {i: (r.deltaxs[i] - 1.5, r.deltays[i] + 2.25, 0.4) for i in ok[::3]}
    return results


class DisplayMachine(Machine):
    def __init__(self, name, ind_pass, show_interp, options, path):
        self.options = options
        self.name = f"DisplayPIV({name}, pass {ind_pass}, show_interp={show_interp!r}, {options})"
        self.path = Path(path)
        results = piv_results(name, path)
        if "loaded" in options:
            from fluidimage import create_object_from_file

            results = create_object_from_file(results.save(str(path)))
        if "noimages" in options:
            for i in range(2):
                os.remove(self.path / f"im{i}.png")
        self.results = results
        self.ind_pass = ind_pass
        self.show_interp = show_interp
        self.piv = r = results.passes[ind_pass]
        self.frozen = piving.frozen(results)
        self.approx = show_interp is True and hasattr(r, "deltaxs_approx")
        if not show_interp:
            self.vectors = r.xs, r.ys, r.deltaxs, r.deltays
        elif show_interp == "smooth":
            self.vectors = r.xs_smooth, r.ys_smooth, r.deltaxs_smooth, r.deltays_smooth
        elif self.approx:
            self.vectors = r.ixvecs_approx, r.iyvecs_approx, r.deltaxs_approx, r.deltays_approx
        else:
            self.vectors = r.ixvecs_final, r.iyvecs_final, r.deltaxs_final, r.deltays_final
        self.vectors = tuple(np.array(a) for a in self.vectors)
        self.errors = list(r.deltays_wrong) if hasattr(r, "deltays_wrong") and "noerror" not in options else None
        if self.errors is not None:
            self.isnan = [i for i in self.errors if np.isnan(r.deltaxs_wrong[i])]
        self.kw = dict(show_interp=show_interp)
        if "noerror" in options:
            self.kw["show_error"] = False
        if "nocorrel" in options:
            self.kw["show_correl"] = False
        if "hist" in options:
            self.kw["hist"] = True
        if "limits" in options:
            self.kw.update(xlim=(3, 21), ylim=(27, 5))
        self.correl = hasattr(r, "correls") and "nocorrel" not in options
        self.sign = 1 if "noimages" in options else -1

    def new(self):
        with quiet():
            app = self.results.display(i=self.ind_pass, **self.kw)
        app.rec = Recorder(app.fig, lambda: self.view(app))
        self.check_arrows(app)
        check_layout(self, app.fig, app.fig.axes, () if "limits" in self.options else app.ax0.images)
        if "noimages" not in self.options:
            ny, nx = self.piv.get_images()[0].shape
            lims = self.kw.get("xlim", (0, nx)), self.kw.get("ylim", (ny, 0))
            got = app.ax0.get_xlim(), app.ax0.get_ylim()
            fail_if(not np.allclose(got, lims), self, f"limits of the axes {got} instead of {lims}", (), "display-axes")
        if "hist" in self.options:
            self.check_hist(app)
        return app, (0, None)

    def check_hist(self, app):
        import matplotlib.pyplot as plt

        (fig,) = [plt.figure(n) for n in plt.get_fignums() if plt.figure(n) is not app.fig]
        _, _, u, v = self.vectors
        ok = np.isfinite(u) & np.isfinite(v)
        c = self.piv.correls_max
        nb = [sum(p.get_height() for p in ax.patches) for ax in fig.axes]
        expected = [2 * ok.sum(), np.isfinite(c).sum()]
        fail_if(nb != expected, self, f"histograms of {nb} values instead of {expected}", (), "display-hist")
        centers = [(p.get_x() + p.get_width() / 2, p.get_height()) for p in fig.axes[0].patches]
        mean = sum(x * h for x, h in centers) / sum(h for _, h in centers)
        width = max(p.get_width() for p in fig.axes[0].patches)
        fail_if(abs(mean - (u[ok].mean() + v[ok].mean()) / 2) > width, self, f"mean of the histogram {mean}", (), "display-hist")

    def quivers(self, app):
        from matplotlib.quiver import Quiver

        return [c for c in app.ax0.collections if isinstance(c, Quiver)]

    def check_arrows(self, app):
        qs = self.quivers(app)
        x, y, u, v = self.vectors
        expected = [(x, y, u, self.sign * v)]
        if self.errors is not None:
            r = self.piv
            ie = np.array(self.errors, dtype=int)
            # positions of the vectors of this pass
            xe, ye = (r.xs, r.ys) if self.approx else (x, y)
            dx = np.array([r.deltaxs_wrong[i] for i in ie])
            dy = np.array([r.deltays_wrong[i] for i in ie])
            inan = np.array(self.isnan, dtype=int)
            expected.append((xe[ie], ye[ie], dx, self.sign * dy))
            expected.append((xe[inan], ye[inan], 0 * xe[inan], 0 * xe[inan]))
        fail_if(len(qs) != len(expected), self, f"{len(qs)} sets of arrows instead of {len(expected)}", (), "display-arrows")
        for q, (x, y, u, v) in zip(qs, expected):
            X, Y = np.asarray(q.X), np.asarray(q.Y)
            U, V = np.ma.filled(q.U, np.nan), np.ma.filled(q.V, np.nan)
            bad = np.isnan(u) | np.isnan(v)
            ok = (
                np.allclose(X, x) and np.allclose(Y, y)
                and np.allclose(U[~bad], u[~bad]) and np.allclose(V[~bad], v[~bad])
                and (np.ma.getmaskarray(q.U)[bad] | np.isnan(U[bad]) | (q.Umask[bad] if np.ndim(q.Umask) else False)).all()
            )
            fail_if(not ok, self, "arrows which are not the vectors", (), "display-arrows")

    def actions(self, state):
        out = [("pick", "q", i) for i in range(self.vectors[0].size)]
        if self.errors is not None:
            out += [("pick", "wrong", j) for j in range(len(self.errors))]
            out += [("pick", "nan", j) for j in range(len(self.isnan))]
        out += [("key", k) for k in ("alt+s", "alt+left", "alt+right", "a", "alt+h")]
        out += [("key-outside", k) for k in ("alt+s", "alt+left", "alt+right")]
        out += [("pick-other",), ("switch",)]
        return out

    def step(self, state, action):
        im, sel = state
        n = self.vectors[0].size
        if action in (("key", "alt+s"), ("switch",)):
            return (im if "noimages" in self.options else 1 - im), sel
        if action[0] == "key" and action[1] in ("alt+left", "alt+right"):
            i = -1 if sel is None else sel[1]
            i += 1 if action[1] == "alt+right" else -1
            return (im, (self.approx, i)) if 0 <= i < n else state
        if action[0] == "pick":
            _, kind, i = action
            if kind == "q":
                return im, (self.approx, i)
            return im, (False, {"wrong": self.errors, "nan": getattr(self, "isnan", None)}[kind][i])
        return state

    def apply(self, app, action, state):
        if action[0] == "pick":
            artist = self.quivers(app)[{"q": 0, "wrong": 1, "nan": 2}[action[1]]]
            pick(app.fig, artist, [action[2], 0])
        elif action[0] == "key":
            key(app.fig, action[1], app.ax0)
        elif action[0] == "key-outside":
            key(app.fig, action[1])
        elif action[0] == "pick-other":
            pick(app.fig, app.ax0.lines[0], [0])
        else:
            app.switch()

    def view(self, app):
        texts = tuple(t.get_text() for t in app.fig.texts)
        images = tuple((im.get_visible(), np.asarray(im.get_array()).tobytes()) for im in app.ax0.images)
        points = tuple((li.get_visible(), tuple(map(float, li.get_xdata())), tuple(map(float, li.get_ydata()))) for li in app.ax0.lines)
        correl = None
        if self.correl:
            ax = app.ax1
            correl = (
                tuple(np.asarray(im.get_array()).tobytes() for im in ax.images),
                tuple(sorted((li.get_marker(), float(li.get_xdata()[0]), float(li.get_ydata()[0])) for li in ax.lines)),
                tuple((tuple(map(float, c.center)), float(c.radius)) for c in ax.patches if hasattr(c, "radius")),
            )
        return app.ax0.get_title(), texts, images, points, correl

    def check(self, app, state, history):
        im, sel = state
        fail = lambda cond, what, key_: fail_if(cond, self, what, history, key_)
        fail(piving.frozen(self.results) != self.frozen, "results modified", "display-data")
        fail(app.rec.nb and app.rec.shown() != self.view(app), "figure not drawn", "display-draw")
        images = app.ax0.images
        if "noimages" in self.options:
            fail(len(images) != 0, "images shown", "display-images")
        else:
            fail([i.get_visible() for i in images] != [im == 0, im == 1], f"images visible: {[i.get_visible() for i in images]}", "display-switch")
            fail(f"im {im} " not in app.ax0.get_title() + " ", f"title {app.ax0.get_title()!r}", "display-switch")
            if not history:
                for artist, arr in zip(images, self.piv.get_images()):
                    # saturated
                    lim = np.percentile(arr, 99)
                    shown = np.asarray(artist.get_array())
                    fail(shown.shape != arr.shape or (np.abs(shown - np.minimum(arr.astype(float), lim)) > 1).any(), "image shown", "display-images")
        text = " ".join(t.get_text() for t in app.fig.texts)
        point = app.ax0.lines[0]
        if sel is None:
            fail(text.strip() != "" or point.get_visible(), f"vector shown: {text!r}", "display-selection")
            return
        interpolated, i = sel
        r = self.piv
        x, y, u, v = self.vectors if interpolated or not self.approx else (r.xs, r.ys, r.deltaxs, r.deltays)
        fail(
            not point.get_visible() or list(point.get_xdata()) != [x[i]] or list(point.get_ydata()) != [y[i]],
            f"point at {point.get_xdata()}, {point.get_ydata()} (visible: {point.get_visible()}) for the vector {i} at {x[i]}, {y[i]}", "display-point",
        )
        numbers = re.match(r"vector (\d+) at ix = (\S+) : iy = (\S+) .*?; U = (\S+) ; V = (\S+?)(?:,|$)", text)
        fail(numbers is None, f"text {text!r}", "display-text")
        shown = tuple(float(s) for s in numbers.groups())
        if not interpolated:
            u, v = r.deltaxs[i], r.deltays[i]
            if np.isnan(u) and hasattr(r, "deltaxs_wrong"):
                u, v = r.deltaxs_wrong[i], r.deltays_wrong[i]
        else:
            u, v = u[i], v[i]
        expected = (i, x[i], y[i], u, v)
        fail(not np.allclose(shown, expected, atol=6e-4, equal_nan=True), f"text {text!r} instead of {expected}", "display-text")
        if interpolated:
            fail("C =" in text or "error" in text, f"text {text!r}", "display-text")
            if self.correl:
                fail(len(app.ax1.images) != 0, "correlation of another vector", "display-correl")
            return
        c = r.correls_max[i]
        m = re.search(r"C = ([^\s,]+)", text)
        fail(m is None or not np.isclose(float(m.group(1)), c, atol=6e-4, equal_nan=True), f"text {text!r} with C = {c}", "display-text")
        error = r.errors.get(i) if r.errors else None
        fail((error is not None) != ("error: " in text) or (error or "") not in text, f"text {text!r} with error {error!r}", "display-text")
        if not self.correl:
            return
        # the correlation
        if r.correls[i] is None:
            fail(len(app.ax1.images) != 0, "correlation of another vector", "display-correl")
            return
        corr = np.asarray(r.correls[i])
        with np.errstate(all="ignore"):
            expected_im = c / corr.max() * corr
        ims = app.ax1.images
        fail(len(ims) != 1 or not np.allclose(np.asarray(ims[0].get_array().filled(np.nan) if hasattr(ims[0].get_array(), "filled") else ims[0].get_array(), float), expected_im, equal_nan=True, rtol=1e-4, atol=1e-6), "correlation shown", "display-correl")
        i0, i1 = r.indices_no_displacement
        dx0 = dy0 = 0.0
        if hasattr(r, "deltaxs_input"):
            dx0, dy0 = r.deltaxs_input[i], r.deltays_input[i]
        shape = corr.shape
        lims = (*app.ax1.get_xlim(), *app.ax1.get_ylim())
        fail(not np.allclose(lims, (-0.5, shape[1] - 0.5, -0.5, shape[0] - 0.5)), f"limits of the correlation {lims} for the shape {shape}", "display-correl")
        marks = [("o", i1, i0), ("x", i1 - (u - dx0), i0 - (v - dy0))]
        if hasattr(r, "deltaxs_final"):
            marks.append(("o", i1 - (r.deltaxs_final[i] - dx0), i0 - (r.deltays_final[i] - dy0)))
        if hasattr(r, "replaced_vectors") and i in r.replaced_vectors:
            dx, dy, _ = r.replaced_vectors[i]
            marks.append(("v", i1 - (dx - dx0), i0 - (dy - dy0)))
        params = r.params
        if params.piv0.nb_peaks_to_search > 1 and r.secondary_peaks[i] is not None:
            for dx, dy, _ in r.secondary_peaks[i]:
                marks.append(("+", i1 - dx, i0 - dy))
        got = sorted((li.get_marker(), float(li.get_xdata()[0]), float(li.get_ydata()[0])) for li in app.ax1.lines)
        marks = sorted((a, float(b), float(c)) for a, b, c in marks)
        same = len(got) == len(marks)
        if same:
            # (any order for the same marker, nan)
            for marker in {a for a, _, _ in marks}:
                g = [np.array(p[1:]) for p in got if p[0] == marker]
                for p in marks:
                    if p[0] == marker:
                        js = [j for j, q in enumerate(g) if np.allclose(q, p[1:], atol=1e-3, equal_nan=True)]
                        if not js:
                            same = False
                            break
                        g.pop(js[0])
        fail(not same, f"marks in the correlation {got} instead of {marks}", "display-correl")
        circles = [p for p in app.ax1.patches if hasattr(p, "radius")]
        if params.piv0.displacement_max is not None:
            ok = len(circles) == 1 and np.allclose(circles[0].center, (i1, i0)) and np.isclose(circles[0].radius, r.displacement_max)
            fail(not ok, f"circle {[(c.center, c.radius) for c in circles]}", "display-correl")
        else:
            fail(len(circles) != 0, "circle shown", "display-correl")


def case_display(rec, c):
    name, ind_pass, show_interp, options, depth, limit = c
    with tmpdir() as path:
        m = DisplayMachine(name, ind_pass, show_interp, tuple(options), path)
        rec.nontrivial(("display", *map(str, c)))
        m.all_transitions(rec, limit)
        if depth:
            # short sequences of the keys and of some vectors
            full = m.actions

            def some(state):
                out = [a for a in full(state) if a[0] != "pick"]
                picks = [a for a in full(state) if a[0] == "pick"]
                return out[:3] + [a for a in picks if a[1] != "q"][:3] + [a for a in picks if a[1] == "q"][:: max(1, len(picks) // 3)]

            m.actions = some
            m.sequences(rec, depth)


# ------------------------------------------------------------------ images before and after


class PreMachine(Machine):
    def __init__(self, kind, ind, hist, dtype, path):
        self.name = f"display of the work {kind}, ind={ind}, hist={hist}, {dtype}"
        self.ind, self.hist, self.kind = ind, hist, kind
        path = Path(path)
        rng = np.random.RandomState(5)
        self.images = []
        for i in range(4):
            im = rng.randint(0, 200, (9 + 0, 12)).astype(dtype)
            im[i, 2 * i] = 250
            data.write_png(path / f"im{i:02d}.png", im.astype(np.uint8))
            self.images.append(im.astype(np.uint8))
        if kind == "im2im":
            from fluidimage.image2image import Work

            params = Work.create_default_params()
            params.images.path = str(path)
            params.im2im = "mc.data.im2im_invert"
        else:
            from fluidimage.preproc import Work

            params = Work.create_default_params()
            params.series.path = str(path)
            params.tools.sequence = ["gamma_correction"]
            params.tools.gamma_correction.enable = True
            params.tools.gamma_correction.gamma = 0.5
            if kind == "preproc-pairs":
                params.series.str_subset = "i:i+2"
        with quiet():
            self.work = Work(params)

    def expected(self):
        ims = [self.images[self.ind], self.images[self.ind + 1]]
        if self.kind == "im2im":
            outs = [data.im2im_invert((None, im.copy())) for im in ims]
        else:
            from fluidimage.works.preproc._toolbox_py import gamma_correction

            outs = [gamma_correction(im.copy(), gamma=0.5) for im in ims]
        return ims, outs

    def new(self):
        from fluidimage.data_objects import display_pre

        given = []
        cls = display_pre.DisplayPreProc
        orig = cls.__init__

        def init(obj, *args, **kwargs):
            given.append((args[:4], [np.array(a) for a in args[:4]]))
            orig(obj, *args, **kwargs)

        cls.__init__ = init
        try:
            with quiet():
                app = self.work.display(self.ind, hist=self.hist)
        finally:
            cls.__init__ = orig
        app.rec = Recorder(app.fig, lambda: self.view(app))
        check_layout(self, app.fig, app.fig.axes, [*app.ax1.images, *app.ax2.images])
        for arrs, copies in given:
            for a, b in zip(arrs, copies):
                fail_if(not np.array_equal(a, b), self, "images given to the display modified", (), "pre-data")
        ims, outs = self.expected()
        shown = [np.asarray(i.get_array()) for ax in (app.ax1, app.ax2) for i in ax.images]
        fail_if(len(shown) != 4, self, f"{len(shown)} images", (), "pre-images")
        for name, a, b in zip(("input 0", "input 1", "output 0", "output 1"), shown, ims + outs):
            b = np.asarray(b, float)
            lim = np.percentile(b, 99)
            # (images of integers: the limit is truncated)
            fail_if(a.shape != b.shape or (np.abs(a - np.minimum(b, lim)) > 1).any(), self, f"image {name} shown", (), "pre-images")
        return app, 0

    def view(self, app):
        return [[i.get_visible() for i in ax.images] for ax in (app.ax1, app.ax2)], [ax.get_title() for ax in (app.ax1, app.ax2)]

    def actions(self, state):
        return [("key", "alt+s"), ("key", "a"), ("switch",)]

    def step(self, state, action):
        return state if action[-1] == "a" else 1 - state

    def apply(self, app, action, state):
        if action[0] == "key":
            key(app.fig, action[1], app.ax1)
        else:
            app.switch()

    def check(self, app, state, history):
        visible, titles = self.view(app)
        fail_if(visible != [[state == 0, state == 1]] * 2, self, f"images visible {visible}", history, "pre-switch")
        fail_if(not titles[0].startswith(f"im {state} ") or not titles[1].startswith(f"im {state}p "), self, f"titles {titles}", history, "pre-switch")
        fail_if(app.rec.nb and app.rec.shown() != self.view(app), self, "figure not drawn", history, "pre-draw")


def case_pre(rec, c):
    *args, depth = c
    with tmpdir() as path:
        m = PreMachine(*args, path)
        rec.nontrivial(("pre", *map(str, c)))
        m.all_transitions(rec)
        m.sequences(rec, depth)


# ------------------------------------------------------------------ fluidimviewer


class ImageMachine(Machine):
    def __init__(self, nb, kind, start, path):
        self.name = f"fluidimviewer({nb} images, {kind}, {start})"
        self.nb, self.kind = nb, kind
        self.path = Path(path)
        self.start = start
        self.names = [f"im{i:02d}" + (".tif" if kind == "float" else ".png") for i in range(nb)]
        (self.path / "other.txt").write_text("not an image")
        (self.path / "im00.h5.dat").write_text("not an image")

    def image(self, ifile, version):
        a = np.arange(48).reshape(6, 8) + 3 * ifile + 60 * version
        if self.kind == "float":
            return (a * 1e-4 + 2e-4).astype(np.float32)
        return (a + 20).astype(np.uint8)

    def write(self, ifile, version):
        import PIL.Image

        PIL.Image.fromarray(self.image(ifile, version)).save(self.path / self.names[ifile])

    def auto(self, ifile, version, cmin=None):
        im = self.image(ifile, version)
        return (float(im.min()) if cmin is None else cmin, float(0.99 * im.max()))

    def new(self):
        from fluidimage.gui.imviewer import ImageViewer

        for i in range(self.nb):
            self.write(i, 0)
        if self.start == "dir":
            path, ifile = self.path, 0
        elif self.start == "glob":
            path, ifile = self.path / "im0*", None
        else:
            ifile = self.nb - 1
            path = self.path / self.names[ifile]
        with quiet():
            app = ImageViewer(SimpleNamespace(path=str(path), colormap="", verbose=None, version=None))
        if ifile is None:
            # (glob: first file in the order of the system)
            ifile = app.ifile
        app.rec = Recorder(app.fig, lambda: self.view(app))
        app.buttons = {t: find_axes(app.fig, t) for t in ("-n", "-1", "+1", "+n", "reload", "auto")}
        check_layout(self, app.fig, app.fig.axes, app.ax.images)
        cached = tuple(0 if i == ifile else None for i in range(self.nb))
        # file, step, limits, last switch, images in memory, versions of the files
        return app, (ifile, 1, self.auto(ifile, 0, 0.0), False, cached, (0,) * self.nb)

    values = {"uint8": (("30", 30.0), ("90", 90.0)), "float": (("0.0005", 5e-4), ("0.02", 0.02))}

    def actions(self, state):
        ifile, n, clim, last, cached, versions = state
        out = [("click", b) for b in ("-n", "-1", "+1", "+n", "reload")]
        out += [("key", "alt+s"), ("key-outside", "alt+s"), ("key", "a")]
        out += [("n", "2"), ("n", "1"), ("n", "5")]
        if cached[ifile] == versions[ifile]:
            out.append(("click", "auto"))
        (lo, _), (hi, _) = self.values[self.kind]
        out += [("cmin", lo), ("cmax", hi)]
        if sum(versions) < 2 and versions[ifile] == 0:
            out.append(("write", ifile))
        return out

    def step(self, state, action):
        ifile, n, clim, last, cached, versions = state
        what = action[1]
        move = None
        if action[0] == "click" and what in ("-n", "-1", "+1", "+n"):
            move = (n if what[1] == "n" else 1) * (1 if what[0] == "+" else -1)
        elif action == ("key", "alt+s"):
            move = -n if last else n
            last = not last
        elif action == ("click", "reload"):
            cached = cached[:ifile] + (versions[ifile],) + cached[ifile + 1 :]
        elif action == ("click", "auto"):
            clim = self.auto(ifile, versions[ifile])
        elif action[0] == "n":
            n = int(what)
        elif action[0] == "cmin":
            clim = (float(what), clim[1])
        elif action[0] == "cmax":
            clim = (clim[0], float(what))
        elif action[0] == "write":
            versions = versions[:ifile] + (1,) + versions[ifile + 1 :]
        if move is not None:
            ifile = (ifile + move) % self.nb
            if cached[ifile] is None:
                cached = cached[:ifile] + (versions[ifile],) + cached[ifile + 1 :]
        return ifile, n, clim, last, cached, versions

    def apply(self, app, action, state):
        kind, what = action
        if kind == "click":
            click(app.fig, app.buttons[what])
        elif kind == "key":
            key(app.fig, what, app.ax)
        elif kind == "key-outside":
            key(app.fig, what)
        elif kind == "write":
            self.write(what, 1)
        else:
            app.get_textbox({"n": "n = ", "cmin": "cmin = ", "cmax": "cmax = "}[kind]).set_val(what)

    def view(self, app):
        shown = [im for im in app.ax.images if im.get_visible()]
        return (
            app.ax.get_title(),
            tuple(np.asarray(im.get_array()).tobytes() for im in shown),
            tuple(tuple(map(float, im.get_clim())) for im in shown),
        )

    def check(self, app, state, history):
        ifile, n, clim, last, cached, versions = state
        fail = lambda cond, what, key_: fail_if(cond, self, what, history, key_)
        shown = [im for im in app.ax.images if im.get_visible()]
        fail(len(shown) != 1, f"{len(shown)} images visible", "im-visible")
        (im,) = shown
        arr = np.asarray(im.get_array())
        expected = self.image(ifile, cached[ifile])
        fail(arr.shape != expected.shape or not np.array_equal(arr, expected), f"image shown is not the file {ifile}", "im-image")
        fail(app.ax.get_title() != self.names[ifile], f"title {app.ax.get_title()!r} for the file {ifile}", "im-title")
        fail(not np.allclose(im.get_clim(), clim, rtol=1e-6), f"limits {im.get_clim()} instead of {clim}", "im-clim")
        lims = app.cbar.mappable.get_clim()
        fail(not np.allclose(lims, clim, rtol=1e-6), f"limits of the colorbar {lims} instead of {clim}", "im-colorbar")
        if clim[0] < clim[1]:
            fail(not np.allclose(sorted(app.cbar.ax.get_ylim()), clim, rtol=1e-6), f"axis of the colorbar {app.cbar.ax.get_ylim()} instead of {clim}", "im-colorbar")
        for name, val in zip(("cmin = ", "cmax = "), clim):
            text = app.get_textbox(name).text
            fail(abs(float(text) - val) > 0.00501, f"text {name}{text} for {val}", "im-text")
        fail(app.rec.nb and app.rec.shown() != self.view(app), "figure not drawn", "im-draw")


def case_images(rec, c):
    nb, kind, start, depth, limit = c
    with tmpdir() as path:
        m = ImageMachine(nb, kind, start, path)
        rec.nontrivial(("images", *map(str, c)))
        if depth:
            m.sequences(rec, depth)
        if limit:
            m.all_transitions(rec, limit)


# ------------------------------------------------------------------ fluidpivviewer


class FieldMachine(Machine):
    def __init__(self, nb, kind, start, path):
        self.name = f"fluidpivviewer({nb} files, {kind}, {start})"
        self.nb, self.start = nb, start
        self.path = Path(path)
        self.kind = kind
        self.names = [f"piv_{i:02d}a-b.h5" for i in range(nb)] if kind != "time" else [f"piv_{i:02d}-{i + 1:02d}.h5" for i in range(nb)]
        if kind == "light":
            self.names = [n.replace(".h5", "_light.h5") for n in self.names]
        self.fields = [self.make(i) for i in range(nb)]

    def make(self, i):
        import h5py

        x, y = (a.ravel() for a in np.meshgrid(np.arange(4) * 8 + 3, np.arange(3) * 8 + 5))
        rng = np.random.RandomState(i)
        nb_passes = {"time": 2, "passes": 12}.get(self.kind, 1)
        with h5py.File(self.path / self.names[i], "w") as f:
            f.attrs["class_name"] = "LightPIVResults" if self.kind == "light" else "MultipassPIVResults"
            f.attrs["module_name"] = "fluidimage.data_objects.piv"
            f.attrs["nb_passes"] = nb_passes
            for ip in range(nb_passes):
                g = f.create_group("piv" if self.kind == "light" else f"piv{ip}")
                u, v = rng.rand(2, x.size).astype(np.float32) + i
                for k, a in dict(ixvecs_final=x, iyvecs_final=y, deltaxs_final=u, deltays_final=v).items():
                    g.create_dataset(k, data=a)
        return x, y, u, v

    def new(self):
        from fluidimage.gui.piv_viewer import VectorFieldsViewer

        index = 0
        path = self.path
        if self.start == "file":
            index = self.nb - 1
            path = self.path / self.names[index]
        with quiet():
            app = VectorFieldsViewer(SimpleNamespace(path=str(path), verbose=None, version=None))
        check_layout(self, app.fig, app.fig.axes)
        app.rec = Recorder(app.fig, lambda: self.view(app))
        return app, index

    texts = ("0", "1", "2", "9", "-1", "-7", "abc", "1.5", "")

    def actions(self, state):
        return [("click", "-1"), ("click", "+1")] + [("text", t) for t in self.texts]

    def step(self, state, action):
        kind, what = action
        if kind == "click":
            return (state + int(what)) % self.nb
        try:
            i = int(what)
        except ValueError:
            return state
        return min(max(i, 0), self.nb - 1)

    def apply(self, app, action, state):
        if action[0] == "click":
            click(app.fig, find_axes(app.fig, action[1]))
        else:
            app.get_textbox("index = ").set_val(action[1])

    def view(self, app):
        from matplotlib.quiver import Quiver

        (q,) = [c for c in app.ax.collections if isinstance(c, Quiver)]
        return app.ax.get_title(), tuple(np.asarray(a, float).tobytes() for a in (q.X, q.Y, q.U, q.V))

    def check(self, app, state, history):
        fail = lambda cond, what, key_: fail_if(cond, self, what, history, key_)
        title, arrays = self.view(app)
        fail(title != self.names[state], f"title {title!r} for the file {state}", "field-title")
        fail(arrays != tuple(np.asarray(a, float).tobytes() for a in self.fields[state]), f"field shown is not the one of the file {state}", "field-vectors")
        text = app.get_textbox("index = ").text
        fail(text != str(state), f"index {text!r} for the file {state}", "field-text")
        fail(app.rec.nb and app.rec.shown() != self.view(app), "figure not drawn", "field-draw")


def case_fields(rec, c):
    nb, kind, start, depth = c
    with tmpdir() as path:
        m = FieldMachine(nb, kind, start, path)
        rec.nontrivial(("fields", *map(str, c)))
        m.all_transitions(rec)
        if depth:
            m.sequences(rec, depth)


# ------------------------------------------------------------------ run


def case(rec, c):
    import matplotlib

    matplotlib.use("agg")
    Shows.install()
    kind, *rest = c
    dict(display=case_display, pre=case_pre, images=case_images, fields=case_fields)[kind](rec, rest)


def cases(thorough):
    out = []
    for name in PIV:
        nb = PIV[name].get("number", 1)
        for ip in range(nb):
            last = ip == nb - 1
            shows = [False, True] + (["smooth"] if last and "tps" in name else [])
            for show in shows:
                for options in ((), ("noerror",), ("nocorrel",), ("nocorrel", "hist"), ("nocorrel", "limits"), ("loaded",), ("noimages",), ("loaded", "noimages"), ("loaded", "noerror")):
                    if not thorough and options and show and name != "two":
                        continue
                    out.append(("display", name, ip, show, options, (3 if thorough else 2) if not options else (2 if thorough else 0), None if thorough else 1500))
    for kind, inds in (("im2im", (0, 2)), ("preproc", (0, 1, 2)), ("preproc-pairs", (0, 1))):
        for ind in inds:
            for hist in (False, True):
                out.append(("pre", kind, ind, hist, "uint8", 3 if thorough else 2))
    for nb in (1, 2, 3):
        for kind in ("uint8", "float"):
            for start in ("dir", "file", "glob"):
                if start == "glob" and nb != 3:
                    continue
                out.append(("images", nb, kind, start, 0, 20000 if thorough else 700))
        if thorough or nb == 2:
            out.append(("images", nb, "uint8", "dir", 3 if thorough else 2, 0))
    for nb in (1, 2, 3):
        for kind in ("normal", "light", "time", "passes"):
            for start in ("dir", "file"):
                out.append(("fields", nb, kind, start, (3 if thorough else 2) if kind in ("normal", "time") else 0))
    return out


def run(ctx):
    # (the longest ones first)
    cs = sorted(cases(not ctx.quick), key=lambda c: (c[0] != "images", not (c[0] == "display" and c[4] in ((), ("noerror",), ("noimages",)))))
    ctx.pmap(case, cs, timeout=800, chunk=1)
