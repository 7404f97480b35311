"""Reading generated stim circuits: layers, labelled measurement records, detectors, observables."""
import dataclasses
from typing import Dict, FrozenSet, List, Optional, Tuple

import numpy as np
import stim

from .core import Violation, require

NOISE = {"X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "CORRELATED_ERROR", "E",
         "ELSE_CORRELATED_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "I_ERROR", "II_ERROR"}
ANNOT = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}
MEAS = {"M", "MX", "MY", "MR", "MRX", "MRY", "MPP", "MXX", "MYY", "MZZ", "MPAD"}


def canon(name: str) -> str:
    try:
        return stim.gate_data(name).name
    except Exception:
        return name


def strip_noise(c: stim.Circuit) -> stim.Circuit:
    return c.without_noise()


@dataclasses.dataclass
class Parsed:
    coords: Dict[int, Tuple[float, float]]
    labels: List                      # one per measurement record
    detectors: List[Tuple[FrozenSet[int], Tuple[float, ...]]]
    observables: Dict[int, FrozenSet[int]]
    num_obs: int
    layers: List[List[Tuple[str, List[int]]]]   # ideal operations between ticks: (canonical name, qubits)
    ticks: int


def parse(circuit: stim.Circuit) -> Parsed:
    """Walks the fully unrolled ideal circuit.

    A record is labelled ("q", coords) for a measured qubit with coordinates and
    ("p", frozenset((coords, pauli))) for a measured Pauli product, whether measured directly (MPP) or through a
    reset helper qubit without coordinates.
    """
    flat = circuit.flattened()
    coords: Dict[int, Tuple[float, float]] = {}
    labels: List = []
    dets, layers = [], [[]]
    obs: Dict[int, set] = {}
    helper: Dict[int, dict] = {}
    ticks = 0
    for op in flat:
        name = op.name
        if name == "TICK":
            ticks += 1
            layers.append([])
        elif name == "QUBIT_COORDS":
            for t in op.targets_copy():
                require(t.value not in coords, "qubit %r given coordinates twice", t.value)
                coords[t.value] = tuple(op.gate_args_copy())
        elif name == "DETECTOR":
            s = set()
            for t in op.targets_copy():
                s ^= {len(labels) + t.value}
            dets.append((frozenset(s), tuple(op.gate_args_copy())))
        elif name == "OBSERVABLE_INCLUDE":
            s = obs.setdefault(int(op.gate_args_copy()[0]), set())
            for t in op.targets_copy():
                s ^= {len(labels) + t.value}
        elif name == "SHIFT_COORDS" or name in NOISE:
            pass
        elif name == "MPP":
            cur = []
            ts = op.targets_copy()
            qs = []
            prod: List = []
            for i, t in enumerate(ts):
                if t.is_combiner:
                    continue
                p = "X" if t.is_x_target else "Y" if t.is_y_target else "Z"
                prod.append((coords.get(t.value, ("?", t.value)), p))
                qs.append(t.value)
                if i + 1 == len(ts) or not ts[i + 1].is_combiner:
                    labels.append(("p", frozenset(prod)))
                    prod = []
            layers[-1].append((name, qs))
        else:
            qs = [t.value for t in op.targets_copy()]
            layers[-1].append((name, qs))
            if name in ("M", "MX", "MY", "MR"):
                for q in qs:
                    if q in coords:
                        labels.append(("q", coords[q]) if name == "M" else ("q" + name, coords[q]))
                    else:
                        prod = helper.pop(q, {})
                        labels.append(("p", frozenset(prod.items())))
                        if name == "MR":
                            helper[q] = {}
            elif name == "R":
                for q in qs:
                    if q not in coords:
                        helper[q] = {}
            elif name in ("CX", "XCX", "YCX") and any(q not in coords for q in qs[1::2]):
                for a, b in zip(qs[::2], qs[1::2]):
                    if b in coords:
                        continue
                    p = {"CX": "Z", "XCX": "X", "YCX": "Y"}[name]
                    key = coords.get(a, ("?", a))
                    if helper.setdefault(b, {}).get(key) is not None:
                        raise Violation("helper qubit couples twice to the same qubit")
                    helper[b][key] = p
    return Parsed(coords, labels, dets, {k: frozenset(v) for k, v in obs.items()}, flat.num_observables, layers, ticks)


def schedule_labels(p: Parsed, g, n: int):
    """Translates record labels to ("e", k, centre) / ("d", qubit), or raises Violation if the records are not
    exactly one per edge of each sub-round plus one per data qubit."""
    by_pair = {}
    for c in range(3):
        for center, (a, b) in g.edges[c].items():
            by_pair[frozenset([(a, "XYZ"[c]), (b, "XYZ"[c])])] = center
    seen: Dict = {}
    out = []
    data = set(g.data)
    for lab in p.labels:
        kind, what = lab
        if kind == "q" and what in data:
            key = ("d", what)
            require(key not in seen, "data qubit %r is measured twice", what)
            seen[key] = 1
            out.append(key)
            continue
        if kind == "q" and what in g.edge_color:
            center = what
        elif kind == "p" and what in by_pair:
            center = by_pair[what]
        else:
            raise Violation(f"a measurement record is neither an edge nor a data qubit of the schedule: {lab!r}")
        occ = seen.get(center, 0)
        seen[center] = occ + 1
        out.append(("e", 3 * occ + g.edge_color[center], center))
    want = {("e", k, c) for k in range(n) for c in g.edges[k % 3]} | {("d", q) for q in g.data}
    got = set(out)
    require(got == want and len(out) == len(got),
            "records do not cover the schedule: missing %r, extra %r",
            sorted(map(str, want - got))[:4], sorted(map(str, got - want))[:4])
    return out


def to_values(labels_set, cumulative: bool):
    """Edge values from raw records: with cumulative (never reset) ancillas the record is the running parity."""
    out = set()
    for l in labels_set:
        if l[0] == "e" and cumulative:
            k = l[1]
            while k >= 0:
                out ^= {("e", k, l[2])}
                k -= 3
        else:
            out ^= {l}
    return frozenset(out)


def from_values(labels_set, cumulative: bool):
    """Raw records whose parity is the parity of the given edge values (inverse of to_values)."""
    out = set()
    for l in labels_set:
        out ^= {l}
        if l[0] == "e" and cumulative and l[1] >= 3:
            out ^= {("e", l[1] - 3, l[2])}
    return frozenset(out)


def bits_rank(rows: np.ndarray, return_reduced=False):
    """GF(2) rank of a boolean matrix using 64 bit words."""
    if rows.size == 0:
        return 0
    packed = np.packbits(rows.astype(np.uint8), axis=1)
    pad = (-packed.shape[1]) % 8
    if pad:
        packed = np.pad(packed, ((0, 0), (0, pad)))
    m = np.ascontiguousarray(packed).view(np.uint64)
    ncols = rows.shape[1]
    bytes_view = m.view(np.uint8)
    r = 0
    nrows = m.shape[0]
    for c in range(ncols):
        if r == nrows:
            break
        col = (bytes_view[r:, c >> 3] >> (7 - (c & 7))) & 1
        piv = int(col.argmax())
        if not col[piv]:
            continue
        piv += r
        if piv != r:
            m[[r, piv]] = m[[piv, r]]
        col = (bytes_view[r + 1:, c >> 3] >> (7 - (c & 7))) & 1
        hit = np.nonzero(col)[0]
        if hit.size:
            m[hit + r + 1] ^= m[r]
        r += 1
    return r
