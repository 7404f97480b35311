import os
import pathlib
import pickle
import shutil
import subprocess
import sys
from unittest import mock

from hypothesis import strategies as st

from ..boot import SRC
from ..core import Prop, Sub, require, sut, close
from .. import collect as cl, fakedec as fd, plots, scripts
from . import c14, c18, c25, c26, c28, c33

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


INSIDE = {"beside the script": "src/paper", "from src": "src", "from the repository": "."}


def workdir(case, w):
    """The working directory: a scratch one, or one inside a copy of the sources."""
    if case["how"] not in INSIDE:
        cwd = w / case["cwd"]
        cwd.mkdir(parents=True, exist_ok=True)
        return cwd
    if not (w / "copy").exists():
        shutil.copytree(SRC, w / "copy" / "src", ignore=shutil.ignore_patterns("__pycache__", "*_test.py"))
    return w / "copy" / INSIDE[case["how"]]


def place(case, w):
    """A working directory, and the path by which the script is started from it."""
    cwd = workdir(case, w)
    script = SRC / case["script"]
    how = case["how"]
    if how in INSIDE:
        script = pathlib.Path(os.path.relpath(w / "copy" / "src" / case["script"], cwd))
    elif how == "relative":
        script = pathlib.Path(os.path.relpath(script, cwd))
    elif how == "linked":
        (w / "link").symlink_to(SRC, target_is_directory=True)
        script = w / "link" / case["script"]
    return cwd, script


def start(case, w, args):
    """Runs the script the way a user does; returns its standard output."""
    cwd, script = place(case, w)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "VERIF_REPO", "VERIF_EVIDENCE")}
    env.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=str(w), HOME=str(w))
    r = subprocess.run([PY, str(script)] + [str(a) for a in args], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    require(r.returncode == 0, "%s (started as %s in %s) failed: %s", case["script"], script, case["cwd"], r.stderr.strip().splitlines()[-1:])
    return r.stdout


def write_rows(path, rows):
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join([",".join(cl.FIELDS)] + [
        ",".join(str(dict(d, num_shots=n, num_correct=n - e, total_processing_seconds=1.5, version=2)[f]) for f in cl.FIELDS) for d, n, e in rows]) + "\n")


def totals(rows):
    out = {}
    for d, n, e in rows:
        m = out.setdefault(cl.key_of_desc(d), [0, 0])
        m[0] += n
        m[1] += e
    return out


def parsed_totals(text):
    head, rows = cl.parse_csv(text)
    return head, totals([(r, int(r["num_shots"]), int(r["num_shots"]) - int(r["num_correct"])) for r in rows])


def check_program(case, ctx):
    with cl.scratch() as w:
        script = case["script"]
        before = {p: p.read_bytes() for p in (SRC / "paper").glob("*.py")}
        cwd = workdir(case, w)
        if script == "paper/main_collect_all.py":
            collect(case, w, cwd)
        elif script == "paper/write_honeycomb_networkx_graph.py":
            if case["stale"]:
                (cwd / "test.graph").write_bytes(b"old" * 100000)
            start(case, w, [])
            made = {p.name for p in cwd.iterdir()}
            require("test.graph" in made, "no test.graph was written, only %r", made)
            graph(cwd / "test.graph")
        else:
            rows = case["rows"]
            files = [cwd / f"f{i}.csv" for i in range(case["files"])]
            for i, f in enumerate(files):
                write_rows(f, rows[i::len(files)])
            args = [f.name if case["how"] == "relative" or case["how"] in INSIDE else f for f in files]
            if script == "paper/aggregate_csv_data.py":
                head, got = parsed_totals(start(case, w, args))
                require(head == 1 and got == totals(rows), "the files hold %r..., the output says %r...", list(totals(rows).items())[:2], list(got.items())[:2])
            else:
                (cwd / "gen").mkdir()
                start(case, w, args)
                names = [n for _, _, n in c33.SCRIPTS[script]]
                for n in names:
                    for ext, magic in ((".png", b"\x89PNG"), (".pdf", b"%PDF")):
                        p = cwd / "gen" / (n + ext)
                        require(p.exists() and p.read_bytes().startswith(magic), "gen/%s is not written as %s", n + ext, ext)
        require({p: p.read_bytes() for p in (SRC / "paper").glob("*.py")} == before, "a script was modified")
    ctx.mark()
    ctx.label(script.split("/")[-1], case["how"])


def collect(case, w, cwd):
    """Several runs of the collection script over the stand-in decoder program, into one file."""
    from honeycomb_layout import HoneycombLayout
    want, told = {}, {}
    for pid, shots, batch, to_file in case["runs"]:
        args = ["--problem_id", pid, "--max_shots", shots, "--max_batch_size", batch, "--max_errors", 10 ** 9]
        if to_file:
            args += ["--out_file", "out.csv"]
        d = case_desc(pid)
        no = 1
        if pid < 900:
            no = HoneycombLayout(data_width=4, data_height=6, sub_rounds=36, noise=0.001, style="SD6", obs=d["preserved_observable"]).make_circuit().num_observables
        fd.install(cwd, w / "h", dict(kind="masks", masks=[case["mask"]] * no, flips=[case["flip"]] * no))
        (w / "link").unlink(missing_ok=True)
        out = start(case, w, args)
        head, got = parsed_totals(out)
        require(list(got) == [cl.key_of_desc(d)], "problem %d reported as %r, expected %r", pid, list(got)[:2], cl.key_of_desc(d))
        (n, e), = got.values()
        require(n <= shots and (n == shots or 100 * e >= 48 * n), "%d of %d shots taken (%d errors)", n, shots, e)
        if to_file:
            t = told.setdefault(cl.key_of_desc(d), [0, 0])
            t[0] += n
            t[1] += e
    calls = fd.calls(w / "h")
    for c in calls:
        require(c["-dem_fname"] and c["-dets_fname"], "the decoder program got no input")
    if told:
        head, rows = parsed_totals((cwd / "out.csv").read_text())
        require(head == 1 and rows == told, "out.csv holds %r, the runs reported %r", list(rows.items())[:3], list(told.items())[:3])
    else:
        require(not (cwd / "out.csv").exists(), "an unrequested out.csv was written")


def case_desc(pid):
    """The pid-th problem, by the published list: decoder, noise, size, style, observable."""
    noises = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.001, 0.0015, 0.002, 0.003, 0.005, 0.007, 0.01, 0.015, 0.02, 0.03]
    if pid >= 900:
        n, rest = divmod(pid - 900, 300)
        d, rest = divmod(rest, 60)
        d = [3, 7, 11, 15, 19][d]
        p, rest = divmod(rest, 4)
        return dict(data_width=d, data_height=d, rounds=3 * d, noise=noises[p], circuit_style="surface_" + ["SD6", "SI1000"][rest // 2],
                    preserved_observable="XZ"[rest % 2], code_distance=d, num_qubits=2 * d * d - 1, decoder=["internal", "internal_correlated"][n])
    n, rest = divmod(pid, 450)
    p, rest = divmod(rest, 30)
    u, rest = divmod(rest, 6)
    s, o = divmod(rest, 2)
    u += 1
    style, obs = ["SI1000", "SD6", "EM3_v2"][s], "VH"[o]
    return dict(data_width=4 * u, data_height=6 * u, rounds=12 * u, noise=noises[p], circuit_style="honeycomb_" + style, preserved_observable=obs,
                code_distance=4 * u, num_qubits=(24 if style.startswith("EM3") else 60) * u * u,
                decoder=["internal", "internal_correlated"][n])


def graph(path):
    from honeycomb_layout import HoneycombLayout
    with open(path, "rb") as f:
        g = pickle.load(f)
    c = HoneycombLayout(noise=0.001, data_width=4, data_height=6, sub_rounds=36, style="SD6", obs="H").make_circuit()
    errs = []
    dem = c.detector_error_model(decompose_errors=True).flattened()
    for inst in dem:
        if inst.type == "error":
            part = ([], [])
            for t in inst.targets_copy() + [None]:
                if t is None or t.is_separator():
                    errs.append((inst.args_copy()[0],) + part)
                    part = ([], [])
                else:
                    part[t.is_logical_observable_id()].append(t.val)
    from .. import demgen as dg
    c14.compare_graph(g, dg.merge(errs, dem.num_detectors), dem.num_detectors)


def check_example(case, ctx):
    """The README's example over scripted batch results."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from honeycomb_layout import HoneycombLayout
    mod = scripts.load("main_example.py")
    lays = [HoneycombLayout(noise=p, data_width=4 * d, data_height=6 * d, sub_rounds=30, style="EM3_v2", obs="H") for d in (1, 2) for p in (0.001, 0.002, 0.003)]
    circuits = [l.make_circuit() for l in lays]
    want = []
    for i, lay in enumerate(lays):
        sizes, errs, amb = c18.plan(c18.script_of(dict(rates=case["rates"][i])), min_shots=10 ** 3, max_shots=10 ** 6, max_batch=None, min_errors=100, max_sd=1)
        if amb:
            ctx.label("ambiguous")
            return
        d = dict(data_width=lay.data_width, data_height=lay.data_height, rounds=10, noise=lay.noise, circuit_style="honeycomb_EM3_v2", preserved_observable="H",
                 code_distance=lay.data_width, num_qubits=(24, 96)[i >= 3], decoder="pymatching")
        want.append((d, sum(sizes), sum(errs)))
    seen, shown = {}, []

    def errors_of(k, circuit, shots):
        hit = [i for i, c in enumerate(circuits) if c == circuit]
        require(hit, "a circuit of none of the six problems is sampled")
        i = hit[0]
        seen[i] = seen.get(i, 0) + 1
        return c18.script_of(dict(rates=case["rates"][i]))(seen[i] - 1, shots)
    stub = cl.Scripted(errors_of, limit=4000, on_call=lambda c, n, dec: require(dec == "pymatching", "decoder %r", dec))
    cwd = os.getcwd()
    with cl.scratch() as w:
        if case["stale"]:
            write_rows(w / "test.csv", [(want[0][0], 10 ** 6, 10 ** 5), (dict(want[0][0], noise=0.0007), 10 ** 6, 10 ** 4)])
        os.chdir(w)
        try:
            plt.close("all")
            with cl.scripted(stub), mock.patch.object(plt, "show", lambda *a, **k: shown.append(plt.get_fignums())), \
                    mock.patch.object(Figure, "show", lambda self, *a, **k: shown.append([self.number])), cl.quiet() as out, sut("running the example"):
                mod.main()
            text = (w / "test.csv").read_text()
            left = {p.name for p in w.iterdir()}
            head, got = parsed_totals(text)
            require(head == 1 and got == totals(want), "test.csv holds %r, expected %r", sorted(got.items())[:3], sorted(totals(want).items())[:3])
            require(parsed_totals(out.getvalue()) == (1, totals(want)), "the console output differs from what was collected")
            require(left == {"test.csv"}, "left behind %r", left)
            require(len(shown) == 1 and len(shown[0]) == 1, "shown %r", shown)
            fig = plt.figure(shown[0][0])
            require(len(fig.axes) == 1, "%d panels", len(fig.axes))
            c25.verify_axes(fig.axes[0], want)
        finally:
            os.chdir(cwd)
            plt.close("all")
    ctx.mark()
    ctx.label("stale file" if case["stale"] else "fresh", "some points without errors" if any(e == 0 for _, _, e in want) else "errors everywhere")


rate = st.sampled_from([0, 0, 1, 7, 40, 100, 0.001, 0.01, 0.1, 0.3, 0.45, 0.5, 0.9])
examples = st.builds(lambda r, s: dict(rates=r, stale=s), st.lists(st.lists(rate, min_size=1, max_size=3), min_size=6, max_size=6), st.booleans())

PLACES = [".", "a", "a/b c", "src", "paper", "src/paper"]
HOWS = ["absolute", "relative", "linked", *INSIDE]


@st.composite
def figure_rows(draw, script):
    if "detection" in script:
        rows, seen = [], set()
        for style, dist, noise, shots, errors in draw(c28.fig_cases())["rows"]:
            if (style, dist, noise) not in seen:
                seen.add((style, dist, noise))
                rows.append([dict(data_width=dist, data_height=dist, code_distance=dist, num_qubits=dist * dist, rounds=3 * dist, noise=noise,
                                  circuit_style=style, preserved_observable="-", decoder="detection_fraction"), shots, min(shots, errors)])
        return rows
    return [[dict(data_width=4 * u, data_height=6 * u, code_distance=4 * u, num_qubits=60 * u * u, rounds=12 * u, noise=p, circuit_style="honeycomb_" + style,
                  preserved_observable=obs, decoder="internal_correlated"), 10 ** 6, draw(st.integers(1, 10 ** 4)) // 10 ** min(3, u) + 1]
            for style in ("SD6", "SI1000", "EM3_v2") for u in (1, 2, 3) for p in (0.0005, 0.001, 0.002) for obs in "HV"]


@st.composite
def programs(draw):
    script = draw(st.sampled_from(["paper/main_collect_all.py"] * 6 + ["paper/aggregate_csv_data.py"] * 4 + ["paper/write_honeycomb_networkx_graph.py"] * 2 + sorted(c33.SCRIPTS)))
    case = dict(script=script, cwd=draw(st.sampled_from(PLACES)), how=draw(st.sampled_from(HOWS)))
    if script == "paper/main_collect_all.py":
        pids = st.builds(lambda dec, p, rest: 450 * dec + 30 * p + rest, st.integers(0, 1), st.integers(0, 14), st.integers(0, 11)) | st.builds(
            lambda dec, d, rest: 900 + 300 * dec + 60 * d + rest, st.integers(0, 1), st.sampled_from([0, 0, 0, 1]), st.integers(0, 59))
        run = st.tuples(pids, st.sampled_from([10, 25, 26, 60, 100, 300]), st.sampled_from([7, 25, 40, 1000]), st.booleans()).map(list)
        case.update(mask=draw(st.lists(st.integers(0, 30), max_size=2, unique=True)), flip=draw(st.integers(0, 1)), runs=draw(st.lists(run, min_size=1, max_size=2)))
    elif script == "paper/write_honeycomb_networkx_graph.py":
        case["stale"] = draw(st.booleans())
    else:
        rows = draw(c25.row_sets(max_fam=4)) if "aggregate" in script else draw(figure_rows(script))
        case.update(rows=rows, files=draw(st.integers(1, 3)))
    return case


def every(tier):
    for i, how in enumerate(INSIDE):
        yield dict(script="paper/aggregate_csv_data.py", cwd=".", how=how, files=2, rows=[[dict(
            data_width=4, data_height=6, code_distance=4, num_qubits=60, rounds=12, noise=0.001, circuit_style="honeycomb_SD6", preserved_observable=o,
            decoder="internal"), 10 ** 4, 10 + i] for o in "HV"])
    for i, script in enumerate(["paper/main_collect_all.py", "paper/aggregate_csv_data.py", "paper/write_honeycomb_networkx_graph.py", *sorted(c33.SCRIPTS)]):
        base = dict(script=script, cwd=PLACES[i], how=HOWS[i % len(HOWS)], stale=True, mask=[0], flip=0, runs=[[4, 60, 25, True], [455, 30, 25, True], [902, 30, 25, True]], files=2)
        d = dict(data_width=4, data_height=6, code_distance=4, num_qubits=60, rounds=12, noise=0.001, circuit_style="honeycomb_SD6", preserved_observable="H",
                 decoder="internal_correlated")
        base["rows"] = [[dict(d, noise=p, data_width=4 * u, data_height=6 * u, code_distance=4 * u, rounds=12 * u, num_qubits=60 * u * u), 10 ** 5, int(10 ** (4 - u))]
                        for u in (1, 2, 3) for p in (0.0005, 0.001, 0.002)]
        yield base


PROP = Prop(
    id="C34",
    rule="Cases are the README's example over random scripted batch results (with or without an old test.csv), and each script started as a program "
         "of its own from a random working directory by an absolute, relative or linked path, or from within a copy of the sources, over random data (collection with a stand-in decoder "
         "program, aggregation, figures, graph export); all count as non-trivial unless the stopping point is ambiguous. Oracle: the stopping-rule model, "
         "dictionary sums of the rows, the reference matching graph, and the recorded contents of figures and files.",
    assumptions=["the decoder program is a stand-in", "problem numbers follow the published problem list"],
    subs=[Sub("example", check_example, examples, quick=48, thorough=1200),
          Sub("programs", check_program, programs(), quick=40, thorough=900, explicit=every)],
)
