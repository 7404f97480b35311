import math

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, close
from .. import collect as cl, plots, scripts, stats
from .c25 import dataset, dedup, COLS

FIG = "paper/main_render_lambda_figure.py"


def qubits(style, d):
    """Qubits of the smallest real layout of distance at least d."""
    if style.startswith("surface"):
        return 2 * d * d - 1
    u = -(-d // 4)
    return (24 if "EM3" in style else 60) * u * u


class Ref:
    """Reference projections of one (style, decoder, noise) group; rows = [(desc, shots, errors)]."""
    def __init__(self, rows):
        self.h = {d["code_distance"]: (n, e) for d, n, e in rows if d["preserved_observable"] in "HX"}
        self.v = {d["code_distance"]: (n, e) for d, n, e in rows if d["preserved_observable"] in "VZ"}
        d0 = rows[0][0]
        self.style = d0["circuit_style"]
        cells = -(-d0["rounds"] // d0["code_distance"])
        self.xs, self.ys = [], []
        for d in sorted(set(self.h) | set(self.v)):
            a = self.h.get(d, self.v.get(d))
            b = self.v.get(d, self.h.get(d))
            pa, pb = a[1] / a[0], b[1] / b[0]
            if pa and pb:
                qa, qb = stats.per_piece(pa, cells), stats.per_piece(pb, cells)
                self.xs.append(d)
                self.ys.append(qa + qb - qa * qb)
        self.logs = [math.log(y) for y in self.ys]
        self.slope, self.icpt = stats.fit(self.xs, self.logs)[:2] if len(self.xs) > 1 else (0.0, 0.0)

    def distance(self, t):
        return (math.log(t) - self.icpt) / self.slope

    def suppressing(self):
        """True/False, or None at the cut-off."""
        s, i = self.slope, self.icpt
        if min(abs(s + 0.02), abs(i + 0.1), abs(s + 1)) < 1e-6:
            return None
        return (s < -0.02 and i < -0.1) or s < -1

    def lambdas(self):
        if len(self.xs) <= 1:
            return 1.0, 1.0, 1.0
        return tuple(math.exp(-2 * s) for s in stats.slope_range(self.xs, self.logs, 1))

    def count(self, t):
        d = self.distance(t)
        return None if abs(d - round(d)) < 1e-6 or d < 0.5 else qubits(self.style, math.ceil(d))

    def count_range(self, t):
        lo, _, hi = stats.output_range(self.logs, self.xs, math.log(t), 1)
        tol = 2e-3 * (hi - lo) + 1e-6
        out = []
        for d in (lo, hi):
            out.append(None if abs(d - round(d)) < tol or d < 0.5 else qubits(self.style, math.ceil(d)))
        return out


def by_noise(rows):
    out = {}
    for r in rows:
        out.setdefault(r[0]["noise"], []).append(r)
    return {k: Ref(v) for k, v in sorted(out.items())}


def check_group(case, ctx):
    rows = dedup(case["rows"])
    mod = scripts.load(FIG)
    data = dataset(rows)
    with cl.quiet(), sut("grouping"):
        groups = mod.LambdaGroup.groups_from_data(data)
    refs = by_noise(rows)
    require(set(groups) == set(refs), "groups for noise %r, expected %r", sorted(groups), sorted(refs))
    t = case["target"]
    for noise, ref in refs.items():
        g = groups[noise]
        require(g.noise == noise, "group of noise %r labelled %r", noise, g.noise)
        with cl.quiet(), sut("combining"):
            xs, ys = g.combo_data
        require(list(xs) == ref.xs, "distances %r, expected %r", list(xs), ref.xs)
        require(all(close(a, b, 1e-9, 1e-14) for a, b in zip(ys, ref.ys)), "combined error rates %r, expected %r", list(ys), ref.ys)
        # rates of different precision give different fits below 1e-6 relative: not judged
        if ref.ys and min(ref.ys) < 1e-10:
            continue
        with cl.quiet(), sut("fitting"):
            fit = g.linear_fit_d_to_log_err
        require(close(fit.slope, ref.slope, 1e-6, 1e-9) and close(fit.intercept, ref.icpt, 1e-6, 1e-7), "fit %r, %r, expected %r, %r",
                fit.slope, fit.intercept, ref.slope, ref.icpt)
        with sut("confidence"):
            low = g.has_low_confidence_extrapolation
        require(bool(low) == (min(len(ref.h), len(ref.v)) < 3), "low confidence is %r with %d and %d points", low, len(ref.h), len(ref.v))
        want = ref.suppressing()
        if want is not None:
            with sut("suppression"):
                require(bool(g.appears_to_be_suppressing_errors) == want, "suppressing is %r for slope %r, intercept %r", not want, ref.slope, ref.icpt)
        with sut("lambda"):
            ls = g.projected_lambda_range()
        wl = ref.lambdas()
        require(len(ls) == 3 and min(ls) <= ls[1] <= max(ls), "the lambda range %r does not bracket its centre", ls)
        if len(ref.xs) <= 1:
            require(all(close(a, 1) for a in ls), "lambda %r without a fit", ls)
        else:
            require(all(close(math.log(a), math.log(b), 1e-3, 1e-3 * abs(math.log(wl[0]) - math.log(wl[2])) + 1e-6)
                        for a, b in zip(sorted(ls), sorted(wl))), "lambda range %r, expected %r", ls, wl)
            require(close(ls[1], wl[1], 1e-5), "lambda %r, expected %r", ls[1], wl[1])
        if not want or len(ref.xs) < 2:
            continue
        with sut("projecting"):
            d = g.projected_distance(t)
            back = g.projected_error(d)
        require(close(d, ref.distance(t), 1e-5, 1e-6), "distance %r for error %r, expected %r", d, t, ref.distance(t))
        require(close(math.log(back), math.log(t), 1e-9, 1e-9), "error %r at the distance projected for %r", back, t)
        with sut("projecting errors"):
            e5 = g.projected_error(7.0)
        require(close(math.log(e5) if e5 > 0 else 0, ref.slope * 7 + ref.icpt, 1e-5, 1e-6), "error %r projected at distance 7", e5)
        q = ref.count(t)
        if q is not None:
            with sut("qubit count"):
                got = g.projected_required_qubit_count(t, ref.style)
            require(close(got, q, 1e-6), "%r qubits for distance %r of %s, expected %r", got, ref.distance(t), ref.style, q)
            ctx.mark(len(ref.xs) > 2)
            ctx.label("projected " + ref.style.split("_")[0])
        with sut("qubit count range"):
            rng = g.projected_qubit_count_range(t, ref.style)
        for got, w in zip(rng, ref.count_range(t)):
            if w is not None:
                require(close(got, w, 1e-6), "qubit count range %r, expected %r", rng, ref.count_range(t))
                ctx.label("range end judged")
        require(rng[0] <= rng[1] or ref.count_range(t)[0] is None, "qubit count range %r is reversed", rng)
    ctx.label("one observable only" if any(not r.h or not r.v for r in refs.values()) else "both observables")


def style_rows(rows, style, dec):
    return [r for r in rows if r[0]["circuit_style"] == style and r[0]["decoder"] == dec]


def pairs_of(axes_collection):
    import numpy as np
    return [tuple(map(float, p)) for p in np.asarray(axes_collection.get_offsets(), dtype=float)]


def band_ok(g, w, which):
    if sorted(g) != sorted(n for n, _ in w[2]):
        return False
    for n, ref in w[2]:
        lo, hi = g[n]
        if which == "lambda":
            a, _, b = ref.lambdas()
            s = 1e-3 * abs(math.log(a / b)) + 1e-4
            if abs(math.log(lo / min(a, b))) > s or abs(math.log(hi / max(a, b))) > s:
                return False
        else:
            a, b = ref.count_range(1e-12)
            if a is not None and b is not None and not (close(lo, min(a, b), 1e-6) and close(hi, max(a, b), 1e-6)):
                return False
    return True


def check_figures(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.colors as mc
    from matplotlib.collections import PathCollection, PolyCollection
    rows = dedup(case["rows"])
    mod = scripts.load(FIG)
    data = dataset(rows)
    refs = {}
    for style in {r[0]["circuit_style"] for r in rows}:
        for dec in ("internal", "internal_correlated"):
            sub = style_rows(rows, style, dec)
            refs[style, dec] = by_noise(sub) if sub else {}
    for per in refs.values():
        for r in per.values():
            if r.suppressing() is None or (r.ys and min(r.ys) < 1e-10):
                return
    try:
        which = case["which"]
        shown = 0
        with cl.quiet(), sut("figure " + which):
            if which == "fits":
                fig, _ = mod.plot_lambda_line_fits_combo(data, focus=case["focus"])
            elif which == "lambda":
                fig, _ = mod.plot_lambda_combo(data)
            else:
                fig, _ = mod.plot_teraquop_combo(data)
        axs = fig.axes
        if which == "fits":
            decs = ["internal_correlated"] if case["focus"] else ["internal", "internal_correlated"]
            panels = [(code, dec) for code in ("surface", "honeycomb") for dec in decs]
            require(len(axs) == 3 * len(panels), "%d panels, expected %d", len(axs), 3 * len(panels))
            look = {}
            for r, (code, dec) in enumerate(panels):
                for c, (name, suffix) in enumerate(COLS):
                    ax = axs[3 * r + c]
                    if code == "surface" and name == "EM3":
                        continue
                    per = refs.get((f"{code}_{suffix}", dec), {})
                    sc = [(str(x.get_label()), pairs_of(x)) for x in ax.collections if isinstance(x, PathCollection)]
                    want = {str(n): list(zip(map(float, ref.xs), ref.ys)) for n, ref in per.items()}
                    require(sorted(l for l, _ in sc) == sorted(want), "panel %s/%s/%s shows noise %r, expected %r", name, code, dec, [l for l, _ in sc], sorted(want))
                    for l, pts in sc:
                        require(plots.match_points(pts, want[l]), "panel %s/%s/%s, noise %s shows %r, expected %r", name, code, dec, l, pts, want[l])
                    require(ax.get_yscale() == "log", "panel %s/%s/%s is not logarithmic", name, code, dec)
                    hue = {str(x.get_label()): mc.to_hex(x.get_facecolor()[0]) for x in ax.collections if isinstance(x, PathCollection) and len(x.get_facecolor())}
                    for l, h in hue.items():
                        require(look.setdefault(l, h) == h, "noise %s is drawn in different colours", l)
                    for n, ref in per.items():
                        if ref.suppressing() and ref.xs:
                            require(any(mc.to_hex(l.get_color()) == hue[str(n)] and all(close(x, ref.distance(y), 1e-5, 1e-5) for x, y in plots.line_points(l))
                                        for l in ax.lines), "panel %s/%s/%s: the fit for noise %r does not have the colour of its points", name, code, dec, n)
                    ws = [[(ref.distance(y), y) for y in (1e0, 1e-13)] for n, ref in per.items() if ref.suppressing()]
                    got = [plots.line_points(l) for l in ax.lines]
                    require(len(got) == len(ws), "panel %s/%s/%s shows %d fits, expected %d", name, code, dec, len(got), len(ws))
                    i = plots.assign(got, ws, lambda g, w: len(g) == 2 and all(
                        close(a[0], b[0], 1e-5, 1e-5) and close(a[1], b[1], 1e-9) for a, b in zip(sorted(g), sorted(w))))
                    require(i is None, "panel %s/%s/%s: no line shows the fit %r; drawn %r", name, code, dec, ws[i or 0] if ws else None, got[:3])
                    shown += bool(per)
                label = axs[3 * r].get_ylabel()
                require(code in label.lower() and ("correlated" in dec) == ("Correlated" in label), "row label %r for %s %s", label, code, dec)
            for c, (name, _) in enumerate(COLS):
                titles = [axs[3 * r + c].get_title() for r in range(len(panels)) if axs[3 * r + c].axison]
                require(titles[:1] == [name] and set(titles) <= {name, ""}, "column %s is titled %r", name, titles)
        else:
            for c, (name, suffix) in enumerate(COLS):
                ax = axs[c]
                want = []
                for code in ("honeycomb", "surface"):
                    if code == "surface" and name == "EM3":
                        continue
                    for dec in ("internal", "internal_correlated"):
                        per = refs.get((f"{code}_{suffix}", dec), {})
                        if per:
                            want.append((code, dec, [(n, r) for n, r in per.items() if r.suppressing()]))
                lines = [(str(l.get_label()), plots.line_points(l)) for l in ax.lines]
                require(len(lines) == len(want), "panel %s has %d curves, expected %d", name, len(lines), len(want))
                bs = plots.bands(ax)
                require(len(bs) == len(want), "panel %s has %d bands, expected %d", name, len(bs), len(want))
                for code, dec, per in want:
                    mine = [p for l, p in lines if code in l.lower() and ("correlated" in dec) == ("Correlated" in l)]
                    require(len(mine) == 1, "panel %s has %d curves labelled for %s %s: %r", name, len(mine), code, dec, [l for l, _ in lines])
                    (pts,) = mine
                    require([a for a, _ in pts] == [n for n, _ in per], "panel %s/%s/%s shows noise %r, expected %r", name, code, dec, [a for a, _ in pts], [n for n, _ in per])
                    for (n, y), (_, ref) in zip(pts, per):
                        if which == "lambda":
                            require(close(y, ref.lambdas()[1], 1e-4), "panel %s/%s/%s: lambda %r at %r, expected %r", name, code, dec, y, n, ref.lambdas()[1])
                        else:
                            q = ref.count(1e-12)
                            require(q is None or close(y, q, 1e-6), "panel %s/%s/%s: %r qubits at %r, expected %r", name, code, dec, y, n, q)
                    shown += len(per) > 0
                require(ax.get_title() == name and ax.get_xscale() == ax.get_yscale() == "log", "panel %s is titled %r with %s axes", name, ax.get_title(), ax.get_yscale())
                if which == "teraquop":
                    at = dict((code + dec, dict(p)) for code, dec, _ in want for l, p in lines if code in l.lower() and ("correlated" in dec) == ("Correlated" in l))
                    poor = sorted((n, at[code + dec][n]) for code, dec, per in want for n, r in per if min(len(r.h), len(r.v)) < 3)
                    red = sorted(p for x in ax.collections if isinstance(x, PathCollection) for p in pairs_of(x))
                    require(plots.match_points(red, poor), "panel %s marks %r as extrapolated with low confidence, expected %r", name, red, poor)
                    ctx.label("low confidence marks" if poor else "no marks")
                i = plots.assign([b for b, _ in bs], want, lambda g, w: band_ok(g, w, which))
                require(i is None, "panel %s: no band matches %s", name, want[i or 0][:2] if want else None)
        ctx.mark(shown > 1)
        ctx.label(which, f"{min(shown, 5)} panels or curves with data")
    finally:
        plt.close("all")


NOISES = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.001, 0.0015, 0.002, 0.003, 0.005, 0.007, 0.01]


@st.composite
def family(draw, style, dec, noises):
    rows = []
    surface = style.startswith("surface")
    cells = draw(st.sampled_from([3, 3, 3, 1, 4]))
    for p in noises:
        a = draw(st.floats(0.02, 0.6))
        r = draw(st.sampled_from([0.3, 0.5, 0.7, 0.85, 0.95, 1.05, 0.4]) | st.floats(0.3, 1.1))
        for u in draw(st.sampled_from([[1, 2, 3, 4, 5], [1, 2, 3], [1, 2], [2, 3, 4], [1], [1, 3, 5], [2, 4]])):
            d = 4 * u - 1 if surface else 4 * u
            for obs in draw(st.sampled_from([["a", "b"]] * 8 + [["a"], ["b"]])):
                o = ({"a": "X", "b": "Z"} if surface else {"a": "H", "b": "V"})[obs]
                n = draw(st.sampled_from([10 ** 4, 10 ** 6, 10 ** 8, 1000]))
                rate = min(0.5, a * r ** d * draw(st.floats(0.8, 1.25)))
                e = int(n * rate)
                rows.append([dict(data_width=d, data_height=d if surface else 6 * u, code_distance=d,
                                  num_qubits=2 * d * d - 1 if surface else (24 if "EM3" in style else 60) * u * u,
                                  rounds=cells * d, noise=p, circuit_style=style, preserved_observable=o, decoder=dec), n, e])
    return rows


@st.composite
def groups(draw):
    style = draw(st.sampled_from(["honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "surface_SD6", "surface_SI1000"]))
    noises = draw(st.lists(st.sampled_from(NOISES), min_size=1, max_size=3, unique=True) | st.lists(st.floats(0.0001, 0.02), min_size=1, max_size=3, unique=True)
                  | st.sampled_from([[0.0012, 0.00121], [0.001, 0.0010001], [0.00012, 0.00014, 0.0001449]]))
    rows = draw(family(style, "internal", noises))
    draw(st.randoms(use_true_random=False)).shuffle(rows)
    return dict(rows=rows, target=draw(st.sampled_from([1e-12, 1e-12, 1e-6, 1e-9, 1e-15])))


@st.composite
def figures(draw):
    rows = []
    pool = st.lists(st.sampled_from(NOISES), min_size=1, max_size=4, unique=True)
    if draw(st.integers(0, 5)) == 0:
        pool = st.integers(13, 45).map(lambda k: [round(0.0002 + i * 0.00037, 6) for i in range(k)])
    elif draw(st.integers(0, 3)) == 0:
        pool = st.lists(st.floats(0.0001, 0.02), min_size=1, max_size=4, unique=True)
    for style in draw(st.lists(st.sampled_from(["honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "surface_SD6", "surface_SI1000"]), min_size=2, max_size=5, unique=True)):
        for dec in draw(st.sampled_from([["internal"], ["internal_correlated"], ["internal", "internal_correlated"], ["internal", "internal_correlated"]])):
            rows += draw(family(style, dec, draw(pool)))
    draw(st.randoms(use_true_random=False)).shuffle(rows)
    return dict(rows=rows, which=draw(st.sampled_from(["fits", "lambda", "teraquop"])), focus=draw(st.booleans()))


PROP = Prop(
    id="C26",
    rule="Cases are random suppression data (honeycomb and surface styles, 1-5 distances, one or both observables, missing and zero-error "
         "points, 1-4 noise strengths, unsorted) judged through the group projections and through the drawn figures; non-trivial when a "
         "qubit count is projected from at least three points, or several curves have data. Oracle: independent per-cell combination, closed-form fits and layout sizes.",
    assumptions=["within a group all problems have the same number of code cells, as in the paper's data", "combined rates above 1e-10 (double precision)",
                 "projected distances within solver tolerance of an integer are not judged"],
    subs=[Sub("projections", check_group, groups(), quick=2400, thorough=40000),
          Sub("figures", check_figures, figures(), quick=240, thorough=3000)],
)
