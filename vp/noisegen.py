"""Random layered circuits and an independent reference for the noise models."""
import collections
from typing import List

import stim
from hypothesis import strategies as st

C1 = ["C_XYZ", "C_ZYX", "H", "H_YZ", "I"]
C2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
RESETS = ["R", "RX", "RY"]
MEASURES = ["M", "MX", "MY"]
ANNOTS = ["DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS"]


# ---- circuits as JSON: a program is a list of items:
#   ["t"] tick, ["1", name, [q...]], ["2", name, [[a, b]...]], ["p", [[P, a, Q, b]...]] parity measurements,
#   ["d", lookback list], ["o", index, lookbacks], ["s"] shift, ["c", q] coords, ["r", count, program]

def to_stim(prog, meas0=0):
    """Returns (circuit, measurements so far)."""
    c = stim.Circuit()
    m = meas0
    for it in prog:
        k = it[0]
        if k == "t":
            c.append("TICK", [])
        elif k == "1":
            inv = set(it[3]) if len(it) > 3 else ()
            c.append(it[1], [stim.target_inv(q) if q in inv else q for q in it[2]])
            if it[1] in MEASURES:
                m += len(it[2])
        elif k == "2":
            c.append(it[1], [q for ab in it[2] for q in ab])
        elif k == "p":
            ts = []
            for P, a, Q, b, *inv in it[1]:   # inv: bit 1 inverts the first factor, bit 2 the second
                k = inv[0] if inv else 0
                ts += [_t(P, a, k & 1), stim.target_combiner(), _t(Q, b, k & 2)]
            c.append("MPP", ts)
            m += len(it[1])
        elif k in "do":
            recs = sorted({-1 - (b % min(m, 7)) for b in it[-1]}) if m else []
            if k == "d":
                c.append("DETECTOR", [stim.target_rec(r) for r in recs], it[1])
            else:
                c.append("OBSERVABLE_INCLUDE", [stim.target_rec(r) for r in recs], it[1])
        elif k == "s":
            c.append("SHIFT_COORDS", [], it[1] if len(it) > 1 else [0, 0, 1])
        elif k == "c":
            c.append("QUBIT_COORDS", [it[1]], it[2] if len(it) > 2 else [it[1], 2])
        elif k == "r":
            body, m2 = to_stim(it[2], m)
            per = m2 - m
            c.append(stim.CircuitRepeatBlock(it[1], body))
            m += per * it[1]
    return c, m


def _t(P, q, inverted=False):
    return {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}[P](q, bool(inverted))


def gates_of(prog, out=None):
    out = set() if out is None else out
    for it in prog:
        if it[0] in "12":
            out.add(it[1])
        elif it[0] == "p":
            out.add("MPP")
        elif it[0] == "r":
            gates_of(it[2], out)
    return out


numbers = st.lists(st.integers(-3, 9) | st.sampled_from([0.5, -1.25, 2.0 ** -10, 1e6]), max_size=6)


@st.composite
def layer(draw, nq, gates):
    """Operations on disjoint qubits, interleaved with annotations."""
    order = draw(st.permutations(range(nq)))
    items, i = [], 0
    stop = draw(st.integers(0, nq))
    while i < stop:
        g = draw(st.sampled_from(gates))
        if g in C1 or g in RESETS or g in MEASURES:
            k = draw(st.integers(1, 3))
            qs = list(order[i:min(stop, i + k)])
            items.append(["1", g, qs])
            if g in MEASURES and draw(st.integers(0, 3)) == 3:
                items[-1].append(draw(st.lists(st.sampled_from(qs), min_size=1, max_size=2, unique=True)))
            i += len(qs)
        else:
            k = draw(st.integers(1, 2))
            pairs = []
            while len(pairs) < k and i + 2 <= nq:
                pairs.append([order[i], order[i + 1]])
                i += 2
            if not pairs:
                break
            if g == "MPP":
                items.append(["p", [[draw(st.sampled_from("XYZ")), a, draw(st.sampled_from("XYZ")), b]
                                    for a, b in pairs]])
                if draw(st.integers(0, 3)) == 3:
                    for pr in items[-1][1]:
                        pr.append(draw(st.integers(0, 3)))
            else:
                items.append(["2", g, pairs])
    for _ in range(draw(st.integers(0, 2))):
        a = draw(st.sampled_from(["d", "o", "s", "d"]))
        back = draw(st.lists(st.integers(0, 6), max_size=3))
        it = {"d": ["d", draw(st.just([1, 0]) | numbers), back], "o": ["o", draw(st.integers(0, 2) | st.integers(3, 40)), back],
              "s": ["s", draw(st.just([0, 0, 1]) | numbers)]}[a]
        items.insert(draw(st.integers(0, len(items))), it)
    return items


@st.composite
def program(draw, nq, gates, depth=2, max_items=5):
    """Layers separated by ticks and repeat blocks; each qubit used at most once between separators. A loop body
    never consists of just another loop."""
    out = []
    for _ in range(draw(st.integers(1, max_items))):
        kind = draw(st.sampled_from(["layer", "layer", "layer", "tick", "loop"])) if depth else \
            draw(st.sampled_from(["layer", "layer", "tick"]))
        if kind == "layer":
            if out and out[-1][0] not in "tr":
                out.append(["t"])
            out += draw(layer(nq, gates))
        elif kind == "tick":
            out.append(["t"])
        else:
            body = draw(program(nq, gates, depth - 1, 3))
            if not body or all(b[0] == "r" for b in body):
                body = body + [["t"]]
            out.append(["r", draw(st.integers(2, 4) | st.sampled_from([1000] if depth < 2 else [1000, 10 ** 6 + 1, 2 ** 32 + 3])), body])
    return out


@st.composite
def circuits(draw, gates, max_q=7):
    nq = draw(st.integers(2, max_q))
    prog = draw(program(nq, gates))
    coords = draw(st.booleans())
    if coords:
        extra = draw(st.integers(0, 2))
        at = draw(st.none() | numbers)
        prog = [["c", q] if at is None else ["c", q, [q] + at] for q in range(nq + extra)] + prog
    return prog


def scaled(prog, nq, copies, repeats, start, stride):
    """The program on `copies` disjoint sets of nq qubits at once, numbered from `start` in steps of `stride`, with
    straight-line parts executed `repeats` times over."""
    def num(q, k):
        return start + stride * (k * nq + q)

    def go(pr):
        out = []
        for it in pr:
            ks = range(copies)
            if it[0] == "1":
                new = ["1", it[1], [num(q, k) for k in ks for q in it[2]]]
                if len(it) > 3:
                    new.append([num(q, k) for k in ks for q in it[3]])
                out.append(new)
            elif it[0] == "2":
                out.append(["2", it[1], [[num(a, k), num(b, k)] for k in ks for a, b in it[2]]])
            elif it[0] == "p":
                out.append(["p", [[P, num(a, k), Q, num(b, k), *inv] for k in ks for P, a, Q, b, *inv in it[1]]])
            elif it[0] == "c":
                out += [["c", num(it[1], k), *it[2:]] for k in ks]
            elif it[0] == "r":
                out.append(["r", it[1], go(it[2])])
            else:
                out.append(it)
        return out
    one = go(prog)
    coords = [it for it in one if it[0] == "c"]
    body = [it for it in one if it[0] != "c"]
    return coords + [it for _ in range(repeats) for it in body + [["t"]]]


@st.composite
def large_circuits(draw, gates):
    nq = draw(st.integers(2, 6))
    prog = draw(program(nq, gates, depth=1, max_items=3))
    copies, repeats, start, stride = draw(st.sampled_from([
        (1, 1, 3000, 1), (1, 1, 100, 300), (1, 60, 0, 1), (1, 300, 0, 1), (1, 12, 500, 1), (40, 1, 0, 1), (40, 1, 0, 7),
        (200, 1, 0, 1), (50, 4, 0, 1), (20, 1, 1000, 1)]))
    return dict(prog=prog, scale=[nq, copies, repeats, start, stride])


# ---- reference

class Model:
    """Strength per gate name, idle strengths, and whether parity measurements use correlated noise."""

    def __init__(self, strengths, idle, mri, correlated):
        self.strengths, self.idle, self.mri, self.correlated = strengths, idle, mri, correlated


def named(name, p):
    c1 = lambda v: {g: v for g in C1}
    c2 = lambda v: {g: v for g in C2}
    return {
        "SD6": lambda: Model({**c1(p), "CX": p, "R": p, "M": p}, p, 0, False),
        "PC3": lambda: Model({**c1(p), **c2(p), "R": p, "M": p}, p, 0, False),
        "EM3_v1": lambda: Model({**c1(p), "R": p, "M": p, "MPP": p}, p, 0, False),
        "EM3_v2": lambda: Model({**c1(0), **c2(0), "R": p / 2, "M": p / 2, "MPP": p}, p, 0, True),
        "SI1000": lambda: Model({**c1(p / 10), "CZ": p, "R": 2 * p, "M": 5 * p}, p / 10, 2 * p, False),
    }[name]()


def expected_layer(items, model: Model, qs, corr_p):
    """(channels before the layer's operations, channels after) as Counters of (name, strength, targets)."""
    pre, post, mid = collections.Counter(), collections.Counter(), collections.Counter()
    used, mr = set(), set()
    for it in items:
        if it[0] == "1":
            p = model.strengths[it[1]]
            used |= set(it[2])
            if it[1] in RESETS + MEASURES:
                mr |= set(it[2])
            if p:
                for q in it[2]:
                    flip = "Z_ERROR" if it[1].endswith("X") else "X_ERROR"
                    if it[1] in C1:
                        post["DEPOLARIZE1", p, (q,)] += 1
                    elif it[1] in RESETS:
                        post[flip, p, (q,)] += 1
                    else:
                        pre[flip, p, (q,)] += 1
        elif it[0] == "2":
            p = model.strengths[it[1]]
            for a, b in it[2]:
                used |= {a, b}
                if p:
                    post["DEPOLARIZE2", p, tuple(sorted((a, b)))] += 1
        elif it[0] == "p":
            p = model.strengths["MPP"]
            for P, a, Q, b, *_ in it[1]:
                used |= {a, b}
                if p and model.correlated:
                    for u in "IXYZ":
                        for v in "IXYZ":
                            for f in (0, 1):
                                if (u, v, f) != ("I", "I", 0):
                                    ts = [(u, a)] * (u != "I") + [(v, b)] * (v != "I") + [("flip",)] * f
                                    mid["CORRELATED", corr_p, tuple(sorted(ts))] += 1
                elif p:
                    pre["DEPOLARIZE2", p, tuple(sorted((a, b)))] += 1
                    mid["FLIP", p, ()] += 1
    if used and model.idle:
        for q in set(qs) - used:
            post["DEPOLARIZE1", model.idle, (q,)] += 1
    if mr and model.mri:
        for q in set(qs) - mr:
            post["DEPOLARIZE1", model.mri, (q,)] += 1
    return pre, mid, post, used


def split(prog):
    """Layers and separators: ("layer", items) / ("tick",) / ("loop", count, parts)."""
    parts, cur = [], []

    def end():
        nonlocal cur
        parts.append(("layer", cur))
        cur = []
    for it in prog:
        if it[0] == "t":
            end()
            parts.append(("tick",))
        elif it[0] == "r":
            end()
            parts.append(("loop", it[1], split(it[2])))
        else:
            cur.append(it)
    end()
    return [p for p in parts if p[0] != "layer" or p[1]]


def split_stim(c: stim.Circuit):
    parts, cur = [], []

    def end():
        nonlocal cur
        parts.append(("layer", cur))
        cur = []
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            end()
            parts.append(("loop", op.repeat_count, split_stim(op.body_copy())))
        elif op.name == "TICK":
            end()
            parts.append(("tick",))
        else:
            cur.append(op)
    end()
    return [p for p in parts if p[0] != "layer" or p[1]]


def observed_layer(ops, circuit_qubits):
    """Channels of an actual noisy layer, classified relative to the layer's own operations on the same qubits."""
    pre, mid, post = collections.Counter(), collections.Counter(), collections.Counter()
    done = set()
    problems = []
    for op in ops:
        name, ts, args = op.name, op.targets_copy(), op.gate_args_copy()
        if name in ("X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1"):
            for t in ts:
                (post if t.value in done else pre)[name, args[0], (t.value,)] += 1
        elif name == "DEPOLARIZE2":
            for a, b in zip(ts[::2], ts[1::2]):
                pair = tuple(sorted((a.value, b.value)))
                n_done = len({*pair} & done)
                if n_done == 1:
                    problems.append(f"DEPOLARIZE2 {pair} between operations")
                (post if n_done else pre)[name, args[0], pair] += 1
        elif name in ("CORRELATED_ERROR", "E"):
            key = tuple(sorted(("flip",) if t.value not in circuit_qubits else
                               ("X" if t.is_x_target else "Y" if t.is_y_target else "Z", t.value) for t in ts))
            mid["CORRELATED", args[0], key] += 1
        elif name in ("DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS"):
            pass
        elif name in ("ELSE_CORRELATED_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2", "I_ERROR", "II_ERROR"):
            problems.append(f"unexpected channel {op}")
        else:
            for t in ts:
                if not t.is_combiner and t.value in circuit_qubits:
                    done.add(t.value)
            if name == "MPP" and args and args[0]:
                mid["FLIP", args[0], ()] += sum(1 for t in ts if t.is_combiner)
            elif args and args[0]:
                problems.append(f"noise argument on {op}")
    return pre, mid, post, problems


# ---- ideal part of a noisy circuit, for comparison with the input

def ideal_stream(c: stim.Circuit, circuit_qubits):
    """Nested list of single-target-group operations with noise removed and helper expansions folded back."""
    out = []
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            body = ideal_stream(op.body_copy(), circuit_qubits)
            n = op.repeat_count
            if n == 1:
                out += body
                continue
            while len(body) == 1 and body[0][0] == "REPEAT":
                n *= body[0][1]
                body = body[0][2]
            out.append(("REPEAT", n, body))
            continue
        name, ts, args = op.name, op.targets_copy(), tuple(op.gate_args_copy())
        if name in ("X_ERROR", "Y_ERROR", "Z_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "CORRELATED_ERROR", "E"):
            continue
        if name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            out.append((name, args, tuple(sorted(t.value for t in ts))))
        elif name in ("TICK", "SHIFT_COORDS"):
            out.append((name, args, ()))
        elif name == "QUBIT_COORDS":
            out += [(name, args, (t.value,)) for t in ts]
        elif name == "MPP":
            prod, inv = [], False
            for i, t in enumerate(ts):
                if t.is_combiner:
                    continue
                inv ^= t.is_inverted_result_target
                prod.append(("X" if t.is_x_target else "Y" if t.is_y_target else "Z", t.value))
                if i + 1 == len(ts) or not ts[i + 1].is_combiner:
                    out.append(("MPP", ("inverted",) * inv, tuple(sorted(prod))))
                    prod, inv = [], False
        elif stim.gate_data(name).is_two_qubit_gate:
            out += [(name, (), (a.value, b.value)) for a, b in zip(ts[::2], ts[1::2])]
        else:
            out += [(name, ("inverted",) * t.is_inverted_result_target, (t.value,)) for t in ts]
    return _fold_helpers(out, circuit_qubits)


def _fold_helpers(stream, circuit_qubits):
    """R a; P1 CX q1 a; P2 CX q2 a; M a  ->  MPP P1*P2 at the position of the measurement (a not in the circuit)."""
    out, pend = [], {}
    for it in stream:
        name, qs = it[0], it[2] if it[0] != "REPEAT" else ()
        ext = [q for q in qs if isinstance(q, int) and q not in circuit_qubits] if name not in (
            "DETECTOR", "OBSERVABLE_INCLUDE", "MPP", "TICK", "SHIFT_COORDS") else []
        if not ext:
            out.append(it)
            continue
        a = ext[-1]
        if name == "R":
            pend[a] = []
        elif name in ("CX", "XCX", "YCX") and qs[1] == a and a in pend and qs[0] in circuit_qubits:
            pend[a].append(({"CX": "Z", "XCX": "X", "YCX": "Y"}[name], qs[0]))
        elif name == "M" and a in pend:
            out.append(("MPP", it[1], tuple(sorted(pend.pop(a)))))
        else:
            out.append(it)
    for a in pend:
        out.append(("dangling helper", (), (a,)))
    return out
