import pathlib
import sys
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, rejects
from .. import collect as cl, scripts
from . import c26, c28

# script -> [(function, arguments, name of the files it is saved as)]
SCRIPTS = {
    "paper/main_render_threshold_figure.py": [("plot_thresholds", dict(focused=True), "threshold"), ("plot_thresholds", dict(focused=False), "threshold_all")],
    "paper/main_render_lambda_figure.py": [("plot_lambda_line_fits_combo", dict(focus=False), "linefits_all"), ("plot_lambda_line_fits_combo", dict(focus=True), "linefits"),
                                           ("plot_lambda_combo", {}, "lambda"), ("plot_teraquop_combo", {}, "teraquop")],
    "paper/main_render_detection_fraction_figure.py": [("plot_detection_fraction", {}, "detectionfraction")],
}


def nums(a):
    return tuple(tuple(float(f"{float(v):.9g}") for v in row) for row in np.atleast_2d(np.asarray(a, dtype=float)))


def snapshot(fig):
    """What a figure shows, independent of drawing order and colours."""
    out = []
    for ax in fig.axes:
        lines = sorted((str(l.get_label()) if not str(l.get_label()).startswith("_") else "", repr(nums(l.get_xydata()))) for l in ax.lines)
        shapes = sorted(repr((type(c).__name__, str(c.get_label()) if not str(c.get_label()).startswith("_") else "",
                              nums(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)) if type(c).__name__ == "PathCollection" else
                              [nums(p.vertices) for p in c.get_paths()])) for c in ax.collections)
        leg = ax.get_legend()
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(lines), tuple(shapes),
                    tuple(sorted(t.get_text() for t in leg.get_texts())) if leg else ()))
    return out


def distribute(case, root):
    """Writes the rows over files; returns the command line and the rows that count."""
    rows = case["rows"]
    args, counted = [], []
    files = {}
    for (d, n, e), where in zip(rows, case["where"] * (len(rows) // len(case["where"]) + 1)):
        # A row may be recorded in two parts, in different files.
        parts = [(where[0], n, e)]
        if where[1] is not None and n > 1:
            k = n // 3
            parts = [(where[0], k, min(e, k)), (where[1], n - k, e - min(e, k))]
        for w, k, x in parts:
            files.setdefault(w, []).append((d, k, x))
    layout = {"a.csv": ("a.csv", True), "b.csv": ("b.csv", True), "data.txt": ("data.txt", True), "d/a.csv": ("d", True), "d/b.csv": ("d", True),
              "e/x.csv": ("e", True), "e/notes.txt": ("e", False), "not given/a.csv": (None, False),
              "d/old/a.csv": ("d", False), "d2/a.csv": ("d2", True), **{f"m{k}.csv": (f"m{k}.csv", True) for k in range(12)}}
    for name, content in sorted(files.items()):
        arg, counts = layout[name]
        p = root / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("\n".join([",".join(cl.FIELDS)] + [",".join(str(dict(d, num_shots=n, num_correct=n - e, total_processing_seconds=1.5, version=2)[f]) for f in cl.FIELDS)
                                                         for d, n, e in content]) + "\n")
        if arg is not None and arg not in args:
            args.append(arg)
        if counts:
            counted += content
    return args, counted


def check(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from collect_data import ProblemShotData, ShotData
    mod = scripts.load(case["script"])
    with cl.scratch() as root:
        (root / "gen").mkdir()
        args, counted = distribute(case, root)
        if not args:
            args = ["a.csv"]
            (root / "a.csv").write_text(",".join(cl.FIELDS) + "\n")
        merged = {}
        for d, n, e in counted:
            m = merged.setdefault(cl.desc_of(d), [0, 0])
            m[0] += n
            m[1] += e
        data = ProblemShotData({k: ShotData(n, n - e, 1.5) for k, (n, e) in merged.items()})
        inputs = {p: p.read_bytes() for p in root.rglob("*") if p.is_file()}
        want = {}
        try:
            try:
                with cl.quiet():
                    for fn, kw, name in SCRIPTS[case["script"]]:
                        f = getattr(mod, fn)(data, **kw)
                        want[name] = snapshot(f[0] if isinstance(f, tuple) else f)
            except Exception:
                ctx.label("not drawable")
                return      # data the figure functions themselves do not accept
            plt.close("all")
            got = {}

            def save(self, path, *a, **k):
                p = pathlib.Path(path)
                require(str(p) not in got, "%s is saved twice", p)
                got[str(p)] = snapshot(self)
                (root / p).write_bytes(b"figure")
            shown = []
            real_cwd = pathlib.Path.cwd()
            import os
            os.chdir(root)
            try:
                with mock.patch.object(Figure, "savefig", save), mock.patch.object(plt, "show", lambda *a, **k: shown.append(1)), \
                        mock.patch.object(plt, "savefig", lambda path, *a, **k: save(plt.gcf(), path)), \
                        sut("running " + case["script"]):
                    scripts.main_output(case["script"], [str(root / a) if case["absolute"] else a for a in args])
            finally:
                os.chdir(real_cwd)
            files = {str(pathlib.Path("gen") / (name + ext)): name for name in want for ext in (".pdf", ".png")}
            require(set(files) <= set(got), "figures %r were not written (wrote %r)", sorted(set(files) - set(got)), sorted(got))
            for f, name in files.items():
                if got[f] != want[name]:
                    for i, (a, b) in enumerate(zip(got[f], want[name])):
                        require(a == b, "%s, panel %d shows %r, the recorded data gives %r", f, i, a[:5], b[:5])
                    require(False, "%s has %d panels, expected %d", f, len(got[f]), len(want[name]))
            for p, b in inputs.items():
                require(p.read_bytes() == b, "input %s was modified", p.name)
        finally:
            plt.close("all")
    ctx.mark(len(merged) > 2 and any(b for ax in want.values() for _, _, _, b, c, _ in ax))
    ctx.label(case["script"].split("render_")[1], f"{len(args)} arguments", "rows in several files" if len({str(d) for d, _, _ in counted}) < len(counted) else "one row each")


def check_no_args(case, ctx):
    mod_path = case["script"]
    with cl.scratch() as root:
        import os
        cwd = os.getcwd()
        os.chdir(root)
        try:
            rejects(lambda: scripts.main_output(mod_path, []), mod_path + " without arguments", (Exception, SystemExit))
        finally:
            os.chdir(cwd)
        require(not list(root.iterdir()), "files were written")
    ctx.mark()


FILES = ["a.csv", "a.csv", "b.csv", "data.txt", "d/a.csv", "d/b.csv", "d/b.csv", "e/x.csv", "e/notes.txt", "not given/a.csv", "d/old/a.csv", "d2/a.csv"]
MANY = [f"m{k}.csv" for k in range(12)]


@st.composite
def cases(draw):
    script = draw(st.sampled_from(sorted(SCRIPTS)))
    if "detection" in script:
        rows, seen = [], set()
        for style, dist, noise, shots, errors in draw(c28.fig_cases())["rows"]:
            if (style, dist, noise) not in seen:
                seen.add((style, dist, noise))
                rows.append([dict(data_width=dist, data_height=dist, code_distance=dist, num_qubits=dist * dist, rounds=3 * dist, noise=noise,
                                  circuit_style=style, preserved_observable="-", decoder="detection_fraction"), shots, min(shots, errors)])
    else:
        rows = c26.dedup(draw(c26.figures())["rows"])[:60]
    files = draw(st.sampled_from([FILES, FILES, FILES, FILES + MANY]))
    where = draw(st.lists(st.tuples(st.sampled_from(files), st.sampled_from([None, None] + files)).map(list), min_size=1, max_size=7 if files is FILES else 30))
    return dict(script=script, rows=rows, where=where, absolute=draw(st.booleans()))


PROP = Prop(
    id="C33",
    rule="Cases are random recorded data divided over CSV files and directories (rows split over several files, files that are not given, "
         "other files next to the CSV files) and given to the three figure scripts; non-trivial when there are more than two problems and "
         "something is drawn. Oracle: the figure functions (judged by C25, C26 and C28) applied to the dictionary sum of the rows.",
    assumptions=["saving is observed, not rendered"],
    subs=[Sub("figures", check, cases(), quick=160, thorough=1500),
          Sub("no arguments", check_no_args, explicit=lambda t: [dict(script=s) for s in sorted(SCRIPTS) + ["paper/aggregate_csv_data.py"]])],
)
