import os

import numpy as np
from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, rejects, close
from .. import conf, fakedec as fd
from .c15 import build, models

CORR = ["-cheap_corr", "-edge_corr", "-node_corr"]


def dem_equal(a: stim.DetectorErrorModel, b: stim.DetectorErrorModel):
    return a == b or a.flattened().approx_equals(b.flattened(), atol=1e-9)


def decode(circuit, samples, corr):
    from decoding import decode_using_internal_decoder
    return decode_using_internal_decoder(circuit=circuit, det_samples=samples, use_correlated_decoding=corr)


def examine(call, circuit, samples, corr, where):
    args = call["args"]
    require(call.get("-dem_fname") is not None and call.get("-dets_fname") is not None, "the program got no input files: %r", args)
    require("-mode" in args and args[args.index("-mode") + 1] == "fi_match_from_dem", "mode of %r", args)
    dem = stim.DetectorErrorModel(call["-dem_fname"])
    require(dem_equal(dem, circuit.detector_error_model(decompose_errors=True)), "the program got another error model")
    lines = call["-dets_fname"].split("\n")
    require(lines[-1] == "", "the last shot line is not terminated")
    lines = lines[:-1]
    require(len(lines) == len(samples), "%d shot lines for %d shots", len(lines), len(samples))
    for i, (line, s) in enumerate(zip(lines, samples)):
        want = ["shot"] + [f"D{k}" for k in range(len(s)) if s[k]]
        require(line.split() == want, "shot %d: the program got %r, expected %r", i, line[:120], " ".join(want)[:120])
    has = [f for f in CORR if f in args]
    require(has == (CORR if corr else []) or (corr and sorted(has) == sorted(CORR)), "correlated=%r but switches %r", corr, has)


def check_verbatim(case, ctx):
    circuit = build(case)
    try:
        circuit.detector_error_model(decompose_errors=True)
    except ValueError:
        return
    nd, no = case["nd"], case["no"]
    rng = np.random.default_rng(case["seed"])
    n = case["shots"]
    samples = rng.random((n, nd)) < case["density"]
    pred = rng.random((n, no)) < 0.5
    text = "".join("".join("01"[int(b)] for b in row) + "\n" for row in pred)
    dirs = {"./": "a/b", "src/": "a/b/src", "../": "a"}
    with fd.scratch_cwd() as w:
        present = case["dirs"]
        for d in ["./", "src/", "../"]:
            if d in present:
                fd.install(w.root / dirs[d], w.root / ("home" + "sbp"["./ src/ ../".split().index(d)]), dict(kind="verbatim", text=text))
        before = samples.copy()
        with sut("decoding with the external program"):
            got = decode(circuit, samples, case["corr"])
        calls = []
        for h in "sbp":
            if (w.root / ("home" + h)).exists():
                calls += [(h, c) for c in fd.calls(w.root / ("home" + h))]
        left = sorted(os.listdir(w.cwd))
    require((before == samples).all(), "the samples were modified")
    require(len(calls) == 1, "%d program calls for one batch", len(calls))
    first = "sbp"[["./", "src/", "../"].index([d for d in ["./", "src/", "../"] if d in present][0])]
    require(calls[0][0] == first, "used the program in another directory than the first of ./, src/, ../ having one")
    examine(calls[0][1], circuit, samples, case["corr"], w)
    got = np.asarray(got)
    require(tuple(got.shape) == (n, no), "predictions have shape %r, expected %r", tuple(got.shape), (n, no))
    require((got.astype(bool) == pred).all(), "predictions differ from the program's output at %r", np.argwhere(got.astype(bool) != pred)[:3].tolist())
    require(not [f for f in left if f.startswith("repro")], "failure report written after success: %r", left)
    ctx.mark(n > 1 and no > 0 and samples.any())
    ctx.label("correlated" if case["corr"] else "plain", "in " + present[0], f"{no} obs", "some silent shots" if n and (~samples.any(axis=1)).any() else "all shots fire")


def check_api(case, ctx):
    """Through the counting entry point: the decoder name decides the switches, the record decides the score."""
    from decoding import sample_decode_count_correct
    conf.classes(case, ctx)
    with sut("generating"):
        c = conf.layout(case).make_circuit()
    with fd.scratch_cwd() as w:
        fd.install(w.cwd, w.root / "h", dict(kind="masks", masks=[[]] * c.num_observables, flips=[0] * c.num_observables))
        with sut("decoding with the external program"):
            got = sample_decode_count_correct(circuit=c, num_shots=case["shots"], decoder=case["decoder"])
        calls = fd.calls(w.root / "h")
    require(len(calls) == 1, "%d program calls", len(calls))
    samples = np.zeros((case["shots"], c.num_detectors), dtype=bool)
    lines = calls[0]["-dets_fname"].splitlines()
    require(len(lines) == case["shots"], "%d shot lines for %d shots", len(lines), case["shots"])
    for i, line in enumerate(lines):
        for t in line.split()[1:]:
            require(t[0] == "D" and int(t[1:]) < c.num_detectors, "unknown detector %r", t)
            samples[i, int(t[1:])] = True
    examine(calls[0], c, samples, case["decoder"] == "internal_correlated", w)
    require(0 <= got <= case["shots"], "count %r", got)
    # predicting no flips is right about as often as the observable is not flipped
    _, obs = c.compile_detector_sampler(seed=3).sample(20000, separate_observables=True)
    p = 1 - obs.any(axis=1).mean()
    sd = (p * (1 - p) * case["shots"]) ** 0.5
    require(abs(got - p * case["shots"]) < 6.5 * sd + 6, "%d of %d scored correct, about %.1f expected", got, case["shots"], p * case["shots"])
    q = samples.mean()
    dets = c.compile_detector_sampler(seed=4).sample(2000)
    require(abs(q - dets.mean()) < 0.02 + 6.5 * (dets.mean() * 3 / max(1, samples.shape[0])) ** 0.5, "detection fraction %.3f, about %.3f expected", q, dets.mean())
    ctx.mark()
    ctx.label(case["decoder"])


BAD = ["exit", "signal", "exit after output", "silent", "empty", "short line", "long line", "missing line", "letter", "blank instead", "two", "space separated", "no newline at end", "joined"]


def check_bad(case, ctx):
    nd, no, n = case["nd"], case["no"], case["shots"]
    circuit = build(case)
    try:
        circuit.detector_error_model(decompose_errors=True)
    except ValueError:
        return
    rng = np.random.default_rng(case["seed"])
    samples = rng.random((n, nd)) < 0.3
    rows = ["".join(rng.choice(["0", "1"], size=no)) for _ in range(n)]
    k = case["seed"] % n
    kind = case["bad"]
    script = None
    if kind == "exit":
        script = dict(kind="exit", code=case["code"])
    elif kind == "exit after output":
        script = dict(kind="verbatim", text="".join(r + "\n" for r in rows), code=case["code"])
    elif kind == "signal":
        script = dict(kind="exit", code=137)
    elif kind == "silent":
        script = dict(kind="silent")
    elif kind == "empty":
        rows = []
    elif kind == "short line":
        if not no:
            return
        rows[k] = rows[k][:-1]
    elif kind == "long line":
        rows[k] += "0"
    elif kind == "missing line":
        del rows[k]
    elif kind == "letter":
        if not no:
            return
        j = case["seed"] // 7 % no
        rows[k] = rows[k][:j] + case["ch"] + rows[k][j + 1:]
    elif kind == "two":
        if not no:
            return
        rows[k] = "2" + rows[k][1:]
    elif kind == "blank instead":
        if not no:
            return
        rows[k] = ""
    elif kind == "space separated":
        if no < 2:
            return
        rows[k] = " ".join(rows[k])
    elif kind == "joined":
        if n < 2 or not no:
            return
    text = "".join(r + "\n" for r in rows)
    if kind == "joined":
        text = "".join(rows) + "\n"
    if kind == "no newline at end":
        text = text[:-1]
        if not no:
            return
    if script is None:
        script = dict(kind="verbatim", text=text)
    with fd.scratch_cwd() as w:
        fd.install(w.cwd, w.root / "h", script)
        stale = case["seed"] % 3 == 0
        if stale:       # reports of an earlier failure
            for f, t in (("repro.dem", "error(0.125) D7 L0\n" * 50), ("repro.dets", "shot D1\nshot\n" * 50), ("repro.stim", "H 3\n" * 50)):
                (w.cwd / f).write_text(t)
        import contextlib, io
        with contextlib.redirect_stderr(io.StringIO()):
            rejects(lambda: decode(circuit, samples, case["corr"]), f"program output: {kind}")
        if script["kind"] == "exit" or script.get("code"):
            left = {f: (w.cwd / f).read_text() if (w.cwd / f).exists() else None for f in ("repro.dem", "repro.dets", "repro.stim")}
            require(None not in left.values(), "the program failed and %r is missing", [f for f in left if left[f] is None])
            require(dem_equal(stim.DetectorErrorModel(left["repro.dem"]), circuit.detector_error_model(decompose_errors=True)),
                    "repro.dem is not the model the program failed on")
            require([l.split() for l in left["repro.dets"].rstrip("\n").split("\n")]
                    == [["shot"] + [f"D{k}" for k in np.nonzero(row)[0]] for row in samples], "repro.dets is not the shots the program failed on")
            require(stim.Circuit(left["repro.stim"]).approx_equals(circuit, atol=1e-5), "repro.stim is not the circuit the program failed on")
            ctx.label("case left behind", "over an earlier one" if stale else "first failure")
    ctx.mark()
    ctx.label(kind)


def check_missing(case, ctx):
    from decoding import sample_decode_count_correct
    circuit = build(case)
    try:
        circuit.detector_error_model(decompose_errors=True)
    except ValueError:
        return
    with fd.scratch_cwd() as w:
        rejects(lambda: decode(circuit, np.zeros((2, case["nd"]), dtype=bool), case["corr"]), "no program", RuntimeError)
        rejects(lambda: sample_decode_count_correct(circuit=circuit, num_shots=2, decoder=case["dec"]), "no program", RuntimeError)
    ctx.mark()


@st.composite
def verbatim(draw):
    m = draw(models())
    m["shots"] = draw(st.sampled_from([1, 2, 5, 17, 60]))
    m["density"] = draw(st.sampled_from([0.02, 0.2, 0.5, 0.9]))
    m["corr"] = draw(st.booleans())
    m["dirs"] = draw(st.sampled_from([["./"], ["./"], ["src/"], ["../"], ["src/", "../"], ["./", "../"], ["./", "src/", "../"]]))
    if draw(st.integers(0, 3)) == 0:
        m["nd"] = draw(st.integers(11, 120))     # multi-digit detector names
    return m


@st.composite
def large(draw):
    m = draw(verbatim())
    m["nd"], m["shots"], m["density"] = draw(st.sampled_from([(1500, 3, 0.9), (4000, 2, 0.9), (1200, 40, 0.5), (12, 9000, 0.3), (1, 70000, 0.5)]))
    m["errors"] = [e for e in m["errors"] if all(d < m["nd"] for d in e[1])]
    if draw(st.booleans()):
        m["no"] = draw(st.integers(9, 70))
    return m


@st.composite
def bad(draw):
    m = draw(models())
    m["shots"] = draw(st.integers(1, 5))
    m["corr"] = draw(st.booleans())
    m["bad"] = draw(st.sampled_from(BAD))
    m["code"] = draw(st.sampled_from([1, 2, 3, 127, 255]))
    m["ch"] = draw(st.sampled_from("2aO \tx-"))
    return m


@st.composite
def missing(draw):
    m = draw(models())
    m["corr"] = draw(st.booleans())
    m["dec"] = draw(st.sampled_from(["internal", "internal_correlated"]))
    return m


def apis(tier):
    for i, (style, p) in enumerate((("SD6", 0.003), ("SI1000", 0.002), ("EM3", 0.006), ("EM3_v2", 0.006), ("PC3", 0.004)) * (2 if tier == "quick" else 8)):
        yield dict(w=(2, 4, 4)[i % 3], h=(6, 6, 12)[i % 3], n=(6, 12, 24)[(i // 3) % 3], style=style, obs="HV"[i % 2], noise=p, shots=(300, 120, 65)[i % 3] + i,
                   decoder=["internal", "internal_correlated"][(i // 5) % 2])


PROP = Prop(
    id="C17",
    rule="Cases are random error models with random samples and random scripted program reactions (verbatim predictions in "
         "any of the lookup directories, also for thousands of detectors or shots; or one of 14 kinds of failing/short/malformed output), plus honeycomb circuits "
         "through the counting entry point; non-trivial when several shots with detections and observables are exchanged, "
         "or a failure is injected. Oracle: the stand-in program's own record of what it received and printed.",
    assumptions=["the external program is a stand-in script that records its inputs (the real one is not public)",
                 "surplus output after the last expected line is not examined"],
    subs=[Sub("verbatim", check_verbatim, verbatim(), quick=1600, thorough=30000),
          Sub("verbatim large", check_verbatim, large(), quick=32, thorough=400),
          Sub("counting", check_api, explicit=apis),
          Sub("failing program", check_bad, bad(), quick=1200, thorough=20000),
          Sub("no program", check_missing, missing(), quick=60, thorough=1000)],
)
