import math

import numpy as np
import stim
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, close
from .. import collect as cl, conf, plots, scripts
from . import c19

FIGURE = "paper/main_render_detection_fraction_figure.py"


def build(spec):
    """A circuit whose detectors are known: (circuit, fired detectors per shot, detectors per shot)."""
    c = stim.Circuit()
    nq = spec["qubits"]
    fired = total = 0
    val = [0] * nq

    def round_(flips, dets, obs, c):
        nonlocal fired, total
        for q in flips:
            c.append("X_ERROR", [q % nq], 1)
            val[q % nq] ^= 1
        c.append("M", range(nq))
        for d in dets:
            c.append("DETECTOR", [stim.target_rec(-nq + (q % nq)) for q in d])
            fired += sum(val[q % nq] for q in d) % 2
            total += 1
        for i, o in enumerate(obs):
            c.append("OBSERVABLE_INCLUDE", [stim.target_rec(-nq + (q % nq)) for q in o], i)
    for r in spec["rounds"]:
        if r["reps"] > 1:
            body = stim.Circuit()
            before = (fired, total)
            round_(r["flips"], r["dets"], r["obs"], body)
            c.append(stim.CircuitRepeatBlock(r["reps"], body))
            for _ in range(r["reps"] - 1):
                round_(r["flips"], r["dets"], r["obs"], stim.Circuit())
            del before
        else:
            round_(r["flips"], r["dets"], r["obs"], c)
    return c, fired, total


def expected_row(d, shots, fired, total):
    key = cl.key_of_desc(dict(d, preserved_observable="-", decoder="detection_fraction"))
    return key, shots * total, shots * (total - fired)


def check_history(case, ctx):
    from collect_data import collect_detection_fraction_data, DecodingProblem, read_recorded_data
    built = [build(s) for s in case["circuits"]]
    descs = case["descs"]
    with cl.scratch() as root:
        model = {}
        for f in case["files"]:
            if f["state"] == "absent":
                continue
            text = "" if f["state"] == "empty" else ",".join(cl.FIELDS) + "\n"
            model[f["name"]] = []
            if f["state"] == "data":
                d = descs[0]
                text += ",".join(str(x) for x in [d["data_width"], d["data_height"], d["rounds"], d["noise"], d["circuit_style"],
                                                  d["preserved_observable"], d["code_distance"], d["num_qubits"], 100, 93, 2.5, d["decoder"], 2]) + "\n"
                model[f["name"]].append((cl.key_of_desc(d), 100, 93))
            (root / f["name"]).write_text(text)
        names = [f["name"] for f in case["files"]]
        for op in case["ops"]:
            name = names[op["file"] % len(names)] if op["file"] is not None else None
            probs, want = [], []
            for i, j in op["problems"]:
                d, (c, fired, total) = descs[i % len(descs)], built[j % len(built)]
                probs.append(DecodingProblem(cl.desc_of(d), lambda c=c: c))
                want.append(expected_row(d, op["shots"], fired, total))
            with cl.quiet() as printed, sut("collecting detection fractions"):
                collect_detection_fraction_data(probs, shots=op["shots"], out_path=None if name is None else str(root / name),
                                                discard_previous_data=op["discard"])
            head, rows = cl.parse_csv(printed.getvalue())
            require(head == 1, "%d header lines printed", head)
            rows = [(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in rows]
            require(rows == want, "printed %r, expected %r", rows, want)
            if name is not None:
                model[name] = ([] if op["discard"] else model.get(name, [])) + want
                head, rows = cl.parse_csv((root / name).read_text())
                require(head == 1, "%d header lines", head)
                got = [(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in rows]
                require(got == model[name], "%s holds %r, expected %r", name, got, model[name])
                require(all(float(r["total_processing_seconds"]) >= 0 for r in rows), "negative time")
        for name, rows in model.items():
            with sut("reading back"):
                data = read_recorded_data(str(root / name)).data
            agg = {}
            for k, n, co in rows:
                a = agg.setdefault(k, [0, 0])
                a[0] += n
                a[1] += co
            require({cl.key_of_desc(k): [v.num_shots, v.num_correct] for k, v in data.items()} == agg, "read back %r, recorded %r", data, agg)
        require(sorted(p.name for p in root.iterdir()) == sorted(model), "unexpected files")
    ctx.mark(any(b[1] for b in built) and any(0 < b[1] < b[2] for b in built))
    ctx.label(*{"discard" if o["discard"] else "append" for o in case["ops"]}, *{"file " + f["state"] for f in case["files"]})
    if any(c.num_observables for c, _, _ in built):
        ctx.label("with observables")


def run_one(c, d, shots):
    from collect_data import collect_detection_fraction_data, DecodingProblem
    with cl.quiet() as printed, sut("collecting detection fractions"):
        collect_detection_fraction_data([DecodingProblem(cl.desc_of(d), lambda: c)], shots=shots, out_path=None, discard_previous_data=False)
    _, rows = cl.parse_csv(printed.getvalue())
    require(len(rows) == 1, "%d rows", len(rows))
    return rows[0]


BASE = dict(data_width=4, data_height=6, code_distance=4, num_qubits=60, rounds=12, noise=0.25, circuit_style="honeycomb_SD6",
            preserved_observable="H", decoder="pymatching")


def check_random(case, ctx):
    """Independent detectors with given probabilities: the fraction is right to 7.5 standard deviations, and fresh each time."""
    c = stim.Circuit()
    for i, p in enumerate(case["ps"]):
        c.append("X_ERROR", [i], p)
        c.append("M", [i])
        c.append("DETECTOR", [stim.target_rec(-1)])
    c.append("X_ERROR", [0], 0.5)
    c.append("M", [0])
    c.append("OBSERVABLE_INCLUDE", [stim.target_rec(-1)], 0)
    shots = case["shots"]
    r = run_one(c, BASE, shots)
    n, co = int(r["num_shots"]), int(r["num_correct"])
    require(n == shots * len(case["ps"]), "%d detector samples for %d shots of %d detectors", n, shots, len(case["ps"]))
    mean = shots * sum(case["ps"])
    sd = math.sqrt(shots * sum(p * (1 - p) for p in case["ps"]))
    require(abs(n - co - mean) <= 7.5 * sd + 12, "%d detection events, expected %.1f +- %.1f", n - co, mean, sd)
    ctx.mark(sd > 0)


def check_many(case, ctx):
    """Tens of millions of detector samples are counted to the unit."""
    nd, k, shots = case["nd"], case["fired"] % (case["nd"] + 1), case["shots"]
    c = stim.Circuit()
    order = np.random.default_rng(case["seed"]).permutation(nd)
    if k:
        c.append("X_ERROR", [int(q) for q in order[:k]], 1)
    c.append("M", range(nd))
    for q in range(nd):
        c.append("DETECTOR", [stim.target_rec(q - nd)])
    r = run_one(c, BASE, shots)
    n, co = int(r["num_shots"]), int(r["num_correct"])
    require((n, n - co) == (shots * nd, shots * k), "%d events in %d samples, expected %d in %d", n - co, n, shots * k, shots * nd)
    ctx.mark(0 < k < nd)
    ctx.label("more than 2^24 samples" if n > 2 ** 24 else "fewer than 2^24 samples")


manys = st.fixed_dictionaries(dict(nd=st.integers(50, 400), fired=st.integers(0, 400), shots=st.integers(50000, 160001), seed=st.integers(0, 10 ** 6)))


def check_honeycomb(case, ctx):
    """Generated circuits: silent without noise; with noise, as often as direct sampling says."""
    conf.classes(case, ctx)
    with sut("making the circuit"):
        lay = conf.layout(case)
        prob = lay.as_decoder_problem("pymatching")
        c = prob.circuit_maker()
    d = {k: getattr(prob.desc, k) for k in BASE}
    shots = case["shots"]
    r = run_one(c, d, shots)
    n, co = int(r["num_shots"]), int(r["num_correct"])
    require(n == shots * c.num_detectors, "%d samples for %d shots of %d detectors", n, shots, c.num_detectors)
    require(cl.key_of_desc(r) == cl.key_of_desc(dict(d, preserved_observable="-", decoder="detection_fraction")), "row describes %r", r)
    if not case["noise"]:
        require(co == n, "%d detection events without noise", n - co)
    elif c.num_detectors:
        m = 2000
        ref = c.compile_detector_sampler(seed=12345).sample(m).sum(axis=1).astype(float)
        mean, sd = ref.mean(), ref.std() + 1.0
        require(abs((n - co) / shots - mean) <= 8 * sd * math.sqrt(1 / shots + 1 / m) + 8 / shots,
                "%.3f detection events per shot, direct sampling has %.3f +- %.3f", (n - co) / shots, mean, sd)
        ctx.mark(mean > 0.5)


def check_figure(case, ctx):
    import matplotlib.pyplot as plt
    from collect_data import ProblemShotData, ShotData, DecodingProblemDesc
    mod = scripts.load(FIGURE)
    data, want = {}, {}
    for style, dist, noise, shots, errors in case["rows"]:
        key = (style, dist, noise)
        if key in want:
            continue
        errors = min(shots, errors)
        want[key] = errors / shots
        data[DecodingProblemDesc(data_width=dist, data_height=dist, code_distance=dist, num_qubits=dist * dist, rounds=3 * dist, noise=noise,
                                 circuit_style=style, preserved_observable="-", decoder="detection_fraction")] = ShotData(shots, shots - errors, 1.0)
    try:
        with sut("plotting detection fractions"):
            fig = mod.plot_detection_fraction(ProblemShotData(data))
        axes = {}
        for ax in fig.axes:
            t = ax.get_title()
            if t:
                require(t not in axes, "two panels titled %r", t)
                axes[t] = ax
        titles = {"surface_SD6": "SD6\nSurface Code", "surface_SI1000": "SI1000\nSurface Code", "honeycomb_SD6": "SD6\nHoneycomb Code",
                  "honeycomb_SI1000": "SI1000\nHoneycomb Code", "honeycomb_EM3_v2": "EM3\nHoneycomb Code", "honeycomb_EM3": "Tweaked EM3\nHoneycomb Code"}
        looks = {}
        fig.canvas.draw_idle()
        for style, title in titles.items():
            require(title in axes, "no panel %r", title)
            ax = axes[title]
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            require(x0 <= 3 and x1 >= 19 and y0 <= 0 and y1 >= 0.49, "panel %r shows distances %r to %r and fractions %r to %r", title, x0, x1, y0, y1)
            for axis in (ax.xaxis, ax.yaxis):
                for pos, text in zip(axis.get_majorticklocs(), axis.get_ticklabels()):
                    t = text.get_text().strip()
                    if t:
                        v = float(t[:-1]) / 100 if t.endswith("%") else float(t.replace("\N{MINUS SIGN}", "-"))
                        require(close(v, pos, 1e-6, 1e-9), "the tick at %r says %r", pos, t)
            for line in ax.lines:
                look = (str(line.get_color()), str(line.get_marker()))
                require(looks.setdefault(line.get_label(), look) == look, "noise %s is drawn as %r and as %r", line.get_label(), look, looks[line.get_label()])
            got = {}
            for line in axes[title].lines:
                pts = plots.line_points(line)
                require(line.get_label() not in got, "two curves labelled %r", line.get_label())
                got[line.get_label()] = sorted(pts)
            exp = {}
            for (s, dist, noise), rate in want.items():
                if s == style:
                    exp.setdefault(str(noise), []).append((float(dist), rate))
            require(set(got) == set(exp), "%s shows curves %r, recorded %r", style, sorted(got), sorted(exp))
            for k, pts in exp.items():
                require(plots.match_points(got[k], sorted(pts)), "%s noise %s shows %r, recorded %r", style, k, got[k], sorted(pts))
    finally:
        plt.close("all")
    ctx.mark(len(want) > 2)
    ctx.label(*{s for s, _, _ in want})


@st.composite
def specs(draw):
    nq = draw(st.integers(1, 5))
    sub = st.lists(st.integers(0, nq - 1), max_size=3, unique=True)
    rounds = [dict(reps=draw(st.sampled_from([1, 1, 1, 2, 3, 7])), flips=draw(st.lists(st.integers(0, nq - 1), max_size=4)),
                   dets=draw(st.lists(sub, max_size=4)), obs=draw(st.lists(sub, max_size=2))) for _ in range(draw(st.integers(1, 3)))]
    return dict(qubits=nq, rounds=rounds)


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(["a.csv", "b.csv"]), min_size=1, max_size=2, unique=True))
    ops = [dict(file=draw(st.sampled_from([0, 0, 1, 1, None])), discard=draw(st.booleans()), shots=draw(st.sampled_from([1, 2, 7, 64, 257, 1000])),
                problems=[list(p) for p in draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=4))])
           for _ in range(draw(st.integers(1, 4)))]
    return dict(descs=draw(c19.close_descs()), circuits=draw(st.lists(specs(), min_size=1, max_size=3)), ops=ops,
                files=[dict(name=n, state=draw(st.sampled_from(["absent", "absent", "empty", "header", "data"]))) for n in names])


@st.composite
def layouts(draw):
    c = draw(conf.configs(max_vol=3000, max_tw=4, max_n=20, noises=(0, 0, 0.001, 0.01, 0.03)))
    c["shots"] = draw(st.sampled_from([1, 10, 256]))
    return c


@st.composite
def fig_cases(draw):
    noises = draw(st.sampled_from([[0.0001, 0.001, 0.002, 0.005, 0.01, 0.03], [0.00012, 0.00014, 0.0012, 0.00121, 0.0010001, 0.001]])
                  | st.lists(st.floats(1e-5, 0.1), min_size=1, max_size=6, unique=True)
                  | st.integers(15, 60).map(lambda k: [0.0005 * (i + 1) for i in range(k)]))
    rows = draw(st.lists(st.tuples(
        st.sampled_from(["surface_SD6", "surface_SI1000", "honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "honeycomb_EM3", "honeycomb_PC3"]),
        st.sampled_from([3, 4, 7, 8, 11, 12, 15, 16, 19, 20]), st.sampled_from(noises),
        st.integers(1, 10 ** 6), st.integers(0, 10 ** 5)).map(list), max_size=25))
    if len(noises) > 10:
        rows += [["honeycomb_SD6", 4, p, 100, i] for i, p in enumerate(noises)]
    return dict(rows=rows)


PROP = Prop(
    id="C28",
    rule="Cases are histories of detection-fraction runs over circuits whose detectors fire deterministically (random flips, detectors, "
         "observables, loops), random independent detectors, tens of millions of samples, generated honeycomb circuits, and random recorded data drawn as the figure; "
         "non-trivial when some but not all detectors fire (resp. the spread is positive, several points). Oracle: parity bookkeeping, "
         "binomial moments, direct sampling.",
    assumptions=["statistical cases allow 7.5 standard deviations"],
    subs=[Sub("histories", check_history, histories(), quick=1500, thorough=40000),
          Sub("random detectors", check_random, st.fixed_dictionaries(dict(ps=st.lists(st.sampled_from([0, 0.001, 0.1, 0.5, 0.9, 1]), min_size=1, max_size=40),
                                                                           shots=st.sampled_from([1, 100, 1024, 5000]))), quick=300, thorough=10000),
          Sub("many samples", check_many, manys, quick=40, thorough=400),
          Sub("honeycomb", check_honeycomb, layouts(), quick=150, thorough=3000),
          Sub("figure", check_figure, fig_cases(), quick=80, thorough=1000)],
)
