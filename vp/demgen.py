"""Random detector error models, an independent unroller and an independent matching oracle."""
import itertools
import math

import numpy as np
import stim
from hypothesis import strategies as st

# A model is a JSON list of items:
#  ["e", p, [component...]] with component = [[dets...], [obs...]]
#  ["s", shift, [coord shifts]]   ["d", det, [coords]]   ["l", obs]   ["r", count, items]


def to_dem(items) -> stim.DetectorErrorModel:
    return stim.DetectorErrorModel("\n".join(_lines(items, "")))


def _lines(items, ind):
    for it in items:
        if it[0] == "e":
            parts = []
            for ds, os_ in it[2]:
                parts.append(" ".join([f"D{d}" for d in ds] + [f"L{o}" for o in os_]))
            yield f"{ind}error({it[1]!r}) " + " ^ ".join(parts)
        elif it[0] == "s":
            args = f"({', '.join(repr(float(v)) for v in it[2])})" if it[2] else ""
            yield f"{ind}shift_detectors{args} {it[1]}"
        elif it[0] == "d":
            args = f"({', '.join(repr(float(v)) for v in it[2])})" if it[2] else ""
            yield f"{ind}detector{args} D{it[1]}"
        elif it[0] == "l":
            yield f"{ind}logical_observable L{it[1]}"
        else:
            yield f"{ind}repeat {it[1]} {{"
            yield from _lines(it[2], ind + "  ")
            yield ind + "}"


def unroll(items):
    """([(p, dets, obs)] per component in order, [(det, coords)] in order, max detector id, max observable id)."""
    errs, coords = [], []
    state = dict(off=0, co=[0.0] * 16, maxd=-1, maxo=-1)

    def go(its):
        for it in its:
            if it[0] == "e":
                for ds, os_ in it[2]:
                    ds = [d + state["off"] for d in ds]
                    errs.append((it[1], ds, list(os_)))
                    state["maxd"] = max([state["maxd"]] + ds)
                    state["maxo"] = max([state["maxo"]] + list(os_))
            elif it[0] == "s":
                state["off"] += it[1]
                for i, v in enumerate(it[2]):
                    state["co"][i] += v
            elif it[0] == "d":
                d = it[1] + state["off"]
                coords.append((d, [v + state["co"][i] for i, v in enumerate(it[2])]))
                state["maxd"] = max(state["maxd"], d)
            elif it[0] == "l":
                state["maxo"] = max(state["maxo"], it[1])
            else:
                for _ in range(it[1]):
                    go(it[2])
    go(items)
    return errs, coords, state["maxd"] + 1, state["maxo"] + 1


def merge(errs, boundary):
    """{frozenset pair: (p, frozenset obs)}: independent combination, first effect wins on conflict."""
    out = {}
    for p, ds, os_ in errs:
        if p == 0 or not ds:
            continue
        if len(ds) > 2:
            raise ValueError("hyper")
        key = frozenset(ds if len(ds) == 2 else [ds[0], boundary])
        fr = frozenset(os_)
        if key in out:
            q, f0 = out[key]
            if f0 != fr:
                continue
            p = p * (1 - q) + q * (1 - p)
        out[key] = (p, fr)
    return out


probs = st.sampled_from([0.1, 0.01, 0.25, 0.001, 0.4, 0.05]) | st.floats(1e-9, 0.999) | st.sampled_from([0.0, 0.5])


@st.composite
def component(draw, nd, no, max_sym=2):
    k = draw(st.integers(0, max_sym)) if draw(st.integers(0, 3)) == 0 else 2
    ds = draw(st.lists(st.integers(0, nd - 1), min_size=min(k, nd), max_size=min(k, nd), unique=True))
    os_ = draw(st.lists(st.integers(0, no - 1), max_size=2, unique=True)) if no else []
    if not ds and not os_:
        ds = [0]
    return [ds, os_]


def coordinates(value):
    """Usually up to four coordinates, sometimes up to the sixteen that circuits allow."""
    return st.lists(value, max_size=4) | st.lists(value, max_size=4) | st.lists(value, min_size=5, max_size=16)


@st.composite
def items(draw, nd, no, depth, max_items=8):
    out = []
    for _ in range(draw(st.integers(1, max_items))):
        k = draw(st.sampled_from("eeeeesddlr" if depth else "eeeeesdd"))
        if k == "e":
            n = draw(st.sampled_from([1, 1, 1, 2, 3]))
            comps = [draw(component(nd, no)) for _ in range(n)]
            out.append(["e", draw(probs), comps])
        elif k == "s":
            out.append(["s", draw(st.integers(0, 4)), draw(coordinates(st.integers(-3, 9)))])
        elif k == "d":
            out.append(["d", draw(st.integers(0, nd - 1)), draw(coordinates(st.integers(-20, 20) | st.floats(-4, 4)))])
        elif k == "l":
            out.append(["l", draw(st.integers(0, max(0, no)))])
        else:
            out.append(["r", draw(st.integers(1, 4)), draw(items(nd, no, depth - 1, 4))])
    return out


@st.composite
def models(draw):
    return draw(items(draw(st.integers(1, 7)), draw(st.integers(0, 3)), 2))


@st.composite
def long_models(draw):
    """Loops of up to a few thousand iterations, as circuits with many rounds give, and detectors with large numbers."""
    nd, no = draw(st.integers(1, 7)), draw(st.sampled_from([0, 1, 2, 3, 40]))
    body = draw(items(nd, no, 0, 3)) + [["s", draw(st.integers(0, 5)), draw(st.lists(st.integers(-2, 3), max_size=3))]]
    n = draw(st.sampled_from([17, 101, 257, 1025, 1500]))
    if draw(st.booleans()):
        body.append(["r", 7, draw(items(nd, no, 0, 2))])
        n = min(n, 260)
    out = draw(items(nd, no, 1, 3)) + [["r", n, body]] + draw(items(nd, no, 1, 3))
    if draw(st.booleans()):
        out = [["s", draw(st.sampled_from([900, 40000])), []]] + out if no else out + draw(items(3000, no, 0, 4))
    return out


# ---- decoding oracle: every subset of edges

def explanations(edges, num_det, boundary, syndrome):
    """All (weight, frame) of edge subsets whose symptoms (ignoring the boundary) equal the syndrome."""
    es = list(edges.items())
    n = len(es)
    sym = np.zeros(1 << n, dtype=np.int64)
    frame = np.zeros(1 << n, dtype=np.int64)
    weight = np.zeros(1 << n)
    for i, (pair, (p, fr)) in enumerate(es):
        s = 0
        for d in pair:
            if d != boundary:
                s ^= 1 << d
        f = sum(1 << o for o in fr)
        w = math.log((1 - p) / p)
        k = 1 << i
        sym[k:2 * k] = sym[:k] ^ s
        frame[k:2 * k] = frame[:k] ^ f
        weight[k:2 * k] = weight[:k] + w
    want = sum(1 << int(d) for d in syndrome)
    return sym, frame, weight, want
