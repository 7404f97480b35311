import math

import numpy as np
from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, rejects, close
from .. import demgen as dg, conf


def frame_of(data):
    for k in ("qubit_id", "fault_ids"):
        if k in data and data[k] is not None:
            v = data[k]
            return frozenset(v if hasattr(v, "__iter__") else [v])
    return frozenset()


def flatten(dem):
    from decoding import iter_flatten_model
    errs, coords = [], []
    iter_flatten_model(dem, handle_error=lambda p, ds, fs: errs.append((p, list(ds), list(fs))),
                       handle_detector_coords=lambda d, c: coords.append((int(d), [float(v) for v in c])))
    return errs, coords


def check_flatten(case, ctx):
    dem = dg.to_dem(case["model"])
    errs, coords, nd, no = dg.unroll(case["model"])
    with sut("flattening"):
        gerrs, gcoords = flatten(dem)
    require(len(gerrs) == len(errs), "%d error components, expected %d", len(gerrs), len(errs))
    for i, ((p, ds, fs), (gp, gds, gfs)) in enumerate(zip(errs, gerrs)):
        require(gp == p and sorted(gds) == sorted(ds) and sorted(gfs) == sorted(fs),
                "component %d is %r, expected %r", i, (gp, gds, gfs), (p, ds, fs))
    require(len(gcoords) == len(coords) and all(
        d == gd and len(c) == len(gc) and all(close(a, b, 1e-9, 1e-9) for a, b in zip(c, gc))
        for (d, c), (gd, gc) in zip(coords, gcoords)), "detector coordinates %r, expected %r", gcoords[:3], coords[:3])
    ctx.mark(len(errs) > 1)
    text = str(dem)
    ctx.label("loop" if "repeat" in text else "flat", "shift" if "shift" in text else "no shift",
              "decomposed" if "^" in text else "simple")


def check_graph(case, ctx):
    from decoding import detector_error_model_to_nx_graph
    dem = dg.to_dem(case["model"])
    errs, coords, nd, no = dg.unroll(case["model"])
    require_nd = dem.num_detectors
    boundary = require_nd
    want = dg.merge(errs, boundary)
    with sut("building the graph"):
        g = detector_error_model_to_nx_graph(dem)
    compare_graph(g, want, boundary, coords)
    ctx.mark(len(want) > 0)
    n_err = sum(1 for p, ds, _ in errs if p and ds)
    ctx.label("merged" if n_err > len(want) else "no merging", "boundary" if any(boundary in k for k in want) else "no boundary",
              "conflict" if conflict(errs, boundary) else "no conflict")


def conflict(errs, boundary):
    seen = {}
    for p, ds, os_ in errs:
        if p and ds:
            k = frozenset(ds if len(ds) == 2 else [ds[0], boundary])
            if seen.setdefault(k, frozenset(os_)) != frozenset(os_):
                return True
    return False


def compare_graph(g, want, boundary, coords=None):
    got = {}
    for a, b, data in g.edges(data=True):
        require(frozenset([a, b]) not in got, "edge listed twice")
        got[frozenset([int(a), int(b)])] = data
    require(set(got) == set(want), "edges differ: missing %r, unexpected %r",
            sorted(map(sorted, set(want) - set(got)))[:3], sorted(map(sorted, set(got) - set(want)))[:3])
    for k, (p, fr) in want.items():
        d = got[k]
        require(close(d["error_probability"], p, 1e-9, 1e-15), "edge %r: probability %r, expected %r", sorted(k), d["error_probability"], p)
        require(close(d["weight"], math.log((1 - p) / p), 1e-6, 1e-6), "edge %r: weight %r, expected %r", sorted(k), d["weight"], math.log((1 - p) / p))
        require(frame_of(d) == fr, "edge %r: logical effect %r, expected %r", sorted(k), sorted(frame_of(d)), sorted(fr))
    require(boundary in g.nodes and g.nodes[boundary].get("is_boundary") is True, "no boundary node")
    for n, d in g.nodes(data=True):
        require(0 <= n <= boundary, "unexpected node %r", n)
        require(n == boundary or not d.get("is_boundary"), "node %r is marked as boundary", n)
    if coords is not None:
        last = {}
        for d, c in coords:
            last[d] = c
        for d, c in last.items():
            have = g.nodes[d].get("coords") if d in g.nodes else None
            require(have is not None and len(have) == len(c) and all(close(float(a), b, 1e-9, 1e-9) for a, b in zip(have, c)),
                    "detector %d has coordinates %r, expected %r", d, have, c)


def check_hyper(case, ctx):
    from decoding import detector_error_model_to_nx_graph
    items = list(case["model"])
    items.insert(case["pos"] % (len(items) + 1), ["e", case["p"], [[case["dets"], case["obs"]]]])
    dem = dg.to_dem(items)
    if case["p"] == 0:
        with sut("building the graph"):
            g = detector_error_model_to_nx_graph(dem)
        errs, coords, _, _ = dg.unroll(items)
        compare_graph(g, dg.merge([e for e in errs if e[0]], dem.num_detectors), dem.num_detectors, coords)
        ctx.label("zero probability accepted")
    else:
        rejects(lambda: detector_error_model_to_nx_graph(dem), f"a component with {len(case['dets'])} symptoms")
        ctx.label(f"{len(case['dets'])} symptoms")
    ctx.mark()


def check_pm(case, ctx):
    """The graph handed to the matcher keeps every real edge and adds no usable one."""
    from decoding import detector_error_model_to_pymatching_graph
    dem = dg.to_dem(case["model"])
    errs, _, _, _ = dg.unroll(case["model"])
    boundary = dem.num_detectors
    want = dg.merge(errs, boundary)
    with sut("building the matching"):
        m = detector_error_model_to_pymatching_graph(dem)
        edges = m.edges()
        nf = m.num_fault_ids
        bd = set(m.boundary)
    require(nf == max(dem.num_observables, 0), "%d observables in the matcher, expected %d", nf, dem.num_observables)
    require(bd == {boundary}, "boundary %r", bd)
    got = {}
    for a, b, d in edges:
        k = frozenset([boundary if a is None else a, boundary if b is None else b])
        if d.get("weight", 0) > 1e6 or any(x > boundary for x in k):
            continue    # spandrels
        got[k] = d
    require(set(got) == set(want), "matcher edges differ: %r", sorted(map(sorted, set(want) ^ set(got)))[:3])
    for k, (p, fr) in want.items():
        require(set(got[k]["fault_ids"]) == set(fr), "edge %r: effect %r, expected %r", sorted(k), got[k]["fault_ids"], sorted(fr))
        require(close(got[k]["weight"], math.log((1 - p) / p), 1e-4, 1e-4), "edge %r: weight %r", sorted(k), got[k]["weight"])
    ctx.mark(len(want) > 0)


def check_circuit(case, ctx):
    """Graphs of generated memory experiments against the unrolled model."""
    from decoding import detector_error_model_to_nx_graph
    conf.classes(case, ctx)
    with sut("generating"):
        c = conf.layout(case).make_circuit()
    dem = c.detector_error_model(decompose_errors=True)
    errs = []
    for ins in dem.flattened():
        if ins.type != "error":
            continue
        p, ds, fs = ins.args_copy()[0], [], []
        for t in ins.targets_copy() + [None]:
            if t is None or t.is_separator():
                errs.append((p, ds, fs))
                ds, fs = [], []
            elif t.is_relative_detector_id():
                ds.append(t.val)
            else:
                fs.append(t.val)
    want = dg.merge(errs, dem.num_detectors)
    with sut("building the graph"):
        g = detector_error_model_to_nx_graph(dem)
    compare_graph(g, want, dem.num_detectors, [(k, v) for k, v in dem.get_detector_coordinates().items()])
    ctx.mark()


mods = st.builds(lambda m: dict(model=m), dg.models())
longs = st.builds(lambda m: dict(model=m), dg.long_models())


@st.composite
def hyper(draw):
    k = draw(st.integers(3, 6))
    return dict(model=draw(dg.items(4, 2, 1, 4)), pos=draw(st.integers(0, 9)), p=draw(st.sampled_from([0.0, 0.1, 1e-9])),
                dets=draw(st.lists(st.integers(0, 8), min_size=k, max_size=k, unique=True)),
                obs=draw(st.lists(st.integers(0, 2), max_size=1)))


PROP = Prop(
    id="C14",
    rule="Cases are random detector error models (nested loops, detector and coordinate shifts, decomposed errors, "
         "repeated symptoms, conflicting effects; also with loops of up to 1500 iterations and "
         "detector numbers up to 40000) and generated honeycomb models; non-trivial when an edge or several "
         "components are expected. Oracle: an independent unroller and odd-parity merge.",
    assumptions=["probabilities in [0, 1)", "symptoms and observables are not repeated inside one component"],
    subs=[Sub("flatten", check_flatten, mods, quick=4000, thorough=100000),
          Sub("graph", check_graph, mods, quick=6000, thorough=150000),
          Sub("flatten long", check_flatten, longs, quick=160, thorough=4000),
          Sub("graph long", check_graph, longs, quick=160, thorough=4000),
          Sub("hyper", check_hyper, hyper(), quick=1000, thorough=20000),
          Sub("matcher", check_pm, mods, quick=2000, thorough=40000),
          Sub("honeycomb", check_circuit, conf.configs(max_vol=2500, max_n=40, max_tw=6, max_th=3, noises=(0.001, 0.02)),
              quick=50, thorough=1500, explicit=lambda t: conf.grid([(2, 6), (4, 6)], (1, 4, 12, 30), noises=(0.001,)))],
)
