import math
from unittest import mock

from hypothesis import strategies as st

from ..core import Prop, Sub, close, require, sut
from .. import collect as cl, plots, scripts


def dataset(rows):
    from collect_data import ProblemShotData, ShotData
    return ProblemShotData({cl.desc_of(d): ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=1.0) for d, n, e in rows})


def dedup(rows):
    out = {}
    for d, n, e in rows:
        out[cl.key_of_desc(d)] = (d, n, e)
    return list(out.values())


def verify_axes(ax, rows, what=""):
    ref = plots.reference_curves(rows)
    lines = [(plots.line_points(l), str(l.get_label()), l) for l in ax.lines]
    bands = plots.bands(ax)
    drawn = [x for x in lines if x[0] or len(lines) == len(ref)]
    require(len(lines) == len(ref) or len(drawn) == sum(1 for d, p, b in ref.values() if p),
            "%s%d curves drawn for %d problems", what, len(lines), len(ref))
    want = [(d, p) for d, p, b in ref.values() if p]
    i = plots.assign(lines, want, lambda g, w: plots.match_points(g[0], w[1])
                     and str(w[0]["rounds"]) in g[1] and f"{w[0]['data_width']}x{w[0]['data_height']}" in g[1])
    if i is not None:
        raise_for(what, "no curve shows %s", want[i][0], want[i][1], [(l[1], l[0][:4]) for l in lines][:6])
    wb = [b for d, p, b in ref.values()]
    require(len(bands) == len(wb), "%s%d bands drawn for %d problems", what, len(bands), len(wb))
    i = plots.assign([b[0] for b in bands], wb, plots.match_band)
    require(i is None, "%sno band matches the likelihood interval %r; bands are %r", what, wb[i or 0] if wb else None, [b[0] for b in bands][:4])
    # a curve and its band share their colour, so they can be read together
    import matplotlib.colors as mc
    for l, label, line in lines:
        if l:
            col = tuple(round(v, 6) for v in mc.to_rgb(line.get_color()))
            near = [b for b, c in bands if c is not None and max(abs(x - y) for x, y in zip(c, col)) < 1e-3
                    and all(x in b and b[x][0] - 1e-9 <= y <= b[x][1] + 1e-9 for x, y in l)]
            require(near, "%scurve %r has no band of its colour around it", what, label)


def raise_for(what, fmt, d, pts, have):
    require(False, "%sno curve for %d rounds, %dx%d: expected points %r; drawn %r", what, d["rounds"], d["data_width"], d["data_height"], pts[:5], have)


def check_plot(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.colors as mc
    from matplotlib.figure import Figure
    from plotting import plot_data
    rows = dedup(case["rows"])
    data = dataset(rows)
    before = [(cl.key_of_desc(k), v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()]
    try:
        kw = dict(title="T %s", legend=case["legend"], focus_on_threshold=case["focus"], marker_offset=case["off"])
        saved, shown = [], []

        def contents(fig):
            return [[plots.line_points(l) for l in a.lines] + [len(a.collections), a.get_title()] for a in fig.axes]
        if case["out"]:
            kw["out_path"] = case["out"]
        if case["show"]:
            kw["show"] = True
        with mock.patch.object(Figure, "savefig", lambda self, path, *a, **k: saved.append((self, str(path), contents(self)))), \
                mock.patch.object(plt, "savefig", lambda path, *a, **k: saved.append((plt.gcf(), str(path), contents(plt.gcf())))), \
                mock.patch.object(Figure, "show", lambda self, *a, **k: shown.append([(self, contents(self))])), \
                mock.patch.object(plt, "show", lambda *a, **k: shown.append([(plt.figure(i), contents(plt.figure(i))) for i in plt.get_fignums()])):
            if case["own_ax"]:
                fig, ax = plt.subplots()
                with sut("plotting"):
                    r = plot_data(data, fig=fig, ax=ax, **kw)
                require(r[1] is ax, "drawn on another axes")
            else:
                with sut("plotting"):
                    fig, ax = plot_data(data, **kw)
        verify_axes(ax, rows)
        final = contents(fig)
        require([(f is fig, n) for f, n, _ in saved] == [(True, case["out"])] * bool(case["out"]), "asked to save as %r, saved %r", case["out"], [n for _, n, _ in saved])
        require(all(c == final for _, _, c in saved), "the figure was saved before it was complete")
        require(len(shown) == 1 if case["show"] else not shown, "shown %d times, asked to: %r", len(shown), case["show"])
        require(all((fig, final) in s for s in shown), "the figure shown is not the complete figure")
        for axis, lim in ((ax.xaxis, ax.get_xlim()), (ax.yaxis, ax.get_ylim())):
            labels = [(pos, text.get_text()) for pos, text in zip(axis.get_majorticklocs(), axis.get_ticklabels())]
            for pos, text in labels:
                require(not text or close(float(text), pos, 1e-6), "the tick at %r says %r", pos, text)
            require(sum(bool(t) and lim[0] <= pos * (1 + 1e-9) and pos <= lim[1] * (1 + 1e-9) for pos, t in labels) >= 1, "no labelled tick in view: %r", labels)
        looks = [(tuple(round(v, 6) for v in mc.to_rgb(l.get_color())), l.get_marker()) for l in ax.lines]
        require(len(set(looks)) == len(looks), "two curves look the same")
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        need = (5e-4, 1e-2, 1e-2, 1e-1) if case["focus"] else (1e-4, 3e-2, 1e-8, 0.5)
        require(x0 <= need[0] * 1.000001 and x1 >= need[1] * 0.999999 and y0 <= need[2] * 1.000001 and y1 >= need[3] * 0.999999,
                "the view %r does not contain the range %r of interest", (x0, x1, y0, y1), need)
        require(not case["focus"] or y1 / y0 < 1000, "the view is not focused on the threshold: %r", (x0, x1, y0, y1))
        require(ax.get_title() == "T %s", "title %r", ax.get_title())
        require(ax.get_xscale() == "log" and ax.get_yscale() == "log", "axes are not logarithmic")
        require((ax.get_legend() is not None) == case["legend"] or not rows, "legend wanted: %r", case["legend"])
        require([(cl.key_of_desc(k), v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()] == before,
                "plotting modified the data")
    finally:
        plt.close("all")
    nf = len(plots.reference_curves(rows))
    ctx.mark(nf > 1 and len(rows) > nf)
    ctx.label("more than 30 curves" if nf > 30 else "many curves" if nf > 8 else "few curves", "focus" if case["focus"] else "full",
              "zero-error points" if any(e == 0 for _, _, e in rows) else "all points have errors")


COLS = [("SD6", "SD6"), ("SI1000", "SI1000"), ("EM3", "EM3_v2")]


def panels(focused):
    rows = []
    if focused:
        rows = [("surface", "Z", "internal_correlated"), ("honeycomb", "H", "internal_correlated")]
    else:
        for code, obs in (("surface", "XZ"), ("honeycomb", "HV")):
            for dec in ("internal", "internal_correlated"):
                for o in obs:
                    rows.append((code, o, dec))
    return rows


def check_figure(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rows = dedup(case["rows"])
    data = dataset(rows)
    mod = scripts.load("paper/main_render_threshold_figure.py")
    try:
        with sut("threshold figure"):
            fig = mod.plot_thresholds(data, focused=case["focused"])
        ps = panels(case["focused"])
        axs = fig.axes
        require(len(axs) == 3 * len(ps), "%d panels, expected %d", len(axs), 3 * len(ps))
        shown = 0
        for r, (code, obs, dec) in enumerate(ps):
            for c, (name, suffix) in enumerate(COLS):
                if code == "surface" and name == "EM3":
                    require(not axs[3 * r + c].lines, "unexpected curves in the empty panel")
                    continue
                sub = [t for t in rows if t[0]["circuit_style"] == f"{code}_{suffix}" and t[0]["preserved_observable"] == obs and t[0]["decoder"] == dec]
                verify_axes(axs[3 * r + c], sub, f"panel {name}/{code}/{obs}/{dec}: ")
                shown += len(sub) > 0
            label = axs[3 * r].get_ylabel()
            require(code in label.lower() and ("correlated" in dec) == ("Correlated" in label) and
                    {"H": "Horizontal", "V": "Vertical"}.get(obs, obs) in label, "row label %r for %s %s %s", label, code, obs, dec)
        ctx.mark(shown > 1)
        ctx.label("focused" if case["focused"] else "all", f"{min(shown, 6)} panels with data")
    finally:
        plt.close("all")


counts = st.tuples(st.sampled_from([10, 100, 1000, 10 ** 5, 10 ** 7]) | st.integers(1, 10 ** 6), st.sampled_from([0.0, 0.0, 0.01, 0.1, 0.5, 0.3, 1.0, 1e-5, 0.7])).map(
    lambda t: (t[0], int(t[0] * t[1])))
NOISE = [0.0001, 0.0003, 0.0005, 0.001, 0.002, 0.003, 0.005, 0.01, 0.02]


@st.composite
def row_sets(draw, paper=False, max_fam=6, min_fam=1):
    rows = []
    for _ in range(draw(st.integers(min_fam, max_fam))):
        d = draw(cl.descs())
        if paper:
            u = draw(st.integers(1, 5))
            style = draw(st.sampled_from(["honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "surface_SD6", "surface_SI1000", "honeycomb_PC3"]))
            d.update(circuit_style=style, decoder=draw(st.sampled_from(["internal", "internal_correlated"])))
            if style.startswith("honey"):
                d.update(data_width=4 * u, data_height=6 * u, code_distance=4 * u, rounds=12 * u, num_qubits=60 * u * u, preserved_observable=draw(st.sampled_from("HV")))
            else:
                dd = 4 * u - 1
                d.update(data_width=dd, data_height=dd, code_distance=dd, rounds=3 * dd, num_qubits=2 * dd * dd - 1, preserved_observable=draw(st.sampled_from("XZ")))
        ps = draw(st.lists(st.sampled_from(NOISE) | st.floats(1e-5, 0.4), min_size=1, max_size=6, unique=True))
        for p in ps:
            n, e = draw(counts)
            rows.append([dict(d, noise=p), n, e])
        if not paper and draw(st.integers(0, 3)) == 0:      # a family that differs in a single respect
            f = draw(st.sampled_from(sorted(set(d) - {"noise"})))
            sib = dict(d, **{f: d[f] + "x" if isinstance(d[f], str) else d[f] + 1})
            for p in ps[draw(st.integers(0, 1)):]:
                n, e = draw(counts)
                rows.append([dict(sib, noise=p), n, e])
    order = draw(st.randoms(use_true_random=False))
    order.shuffle(rows)
    return rows


@st.composite
def plots_cases(draw):
    rows = draw(row_sets(max_fam=draw(st.sampled_from([2, 6, 12]))))
    many = draw(st.sampled_from([0, 0, 0, 33, 45]))
    if many:
        base = rows[0]
        for i in range(many):
            rows.append([dict(base[0], rounds=3 + i, code_distance=3, data_width=2 + i % 7), base[1] + i, min(base[2] + i % 3, base[1])])
    return dict(rows=rows, legend=draw(st.booleans()), focus=draw(st.booleans()), off=draw(st.sampled_from([0, 4])), own_ax=draw(st.booleans()),
                out=draw(st.sampled_from([None, None, "out.png", "dir/fig.pdf"])), show=draw(st.sampled_from([False, False, True])))


figs = st.builds(lambda r, f: dict(rows=r, focused=f), row_sets(paper=True, max_fam=14, min_fam=5), st.booleans())

PROP = Prop(
    id="C25",
    rule="Cases are random recorded data sets (1 to 45 problem families, unsorted noise strengths, points without errors, with only errors, "
         "rates above one half) drawn with random options, and whole threshold figures; non-trivial when there are several curves with several "
         "points. Oracle: independent per-cell conversion and exact likelihood bounds, compared with the artists on the axes.",
    assumptions=["every entry has at least one shot", "bounds within a hundredth of an expected error"],
    subs=[Sub("plot", check_plot, plots_cases(), quick=1200, thorough=20000),
          Sub("threshold figure", check_figure, figs, quick=96, thorough=1500)],
)
