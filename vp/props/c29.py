import math

import stim
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import conf

ONE = {"M": "M", "R": "R", "H": "H", "H_YZ": "G", "C_XYZ": "C", "C_ZYX": "C", "MX": "m", "MY": "m", "MR": "D"}
TWO = {"CX": "@X", "CY": "@Y", "CZ": "@Z", "XCX": "XX", "XCY": "XY", "XCZ": "XZ", "YCX": "YX", "YCY": "YY", "YCZ": "YZ"}
IGNORED = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "X_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "QUBIT_COORDS"}


def expected(c, body_only):
    """(qubit positions, [({qubit: mark}, [(qubit, qubit)])] per layer)."""
    coords = {}

    def find(c):
        for ins in c:
            if isinstance(ins, stim.CircuitRepeatBlock):
                find(ins.body_copy())
            elif ins.name == "QUBIT_COORDS":
                for t in ins.targets_copy():
                    coords[t.value] = tuple(ins.gate_args_copy())
    find(c)
    ops = []
    if body_only:
        for ins in c:
            if isinstance(ins, stim.CircuitRepeatBlock):
                ops.extend(ins.body_copy().flattened())
    else:
        ops = list(c.flattened())
    layers, cur, con = [], {}, []
    for ins in ops:
        n = ins.name
        if n == "TICK":
            layers.append((cur, con))
            cur, con = {}, []
        elif n in IGNORED:
            continue
        elif n == "MPP":
            for g in ins.target_groups():
                qs = [t for t in g if not t.is_combiner]
                for t in qs:
                    cur[t.value] = "x" if t.is_x_target else "y" if t.is_y_target else "z"
                if len(qs) == 2:
                    con.append((qs[0].value, qs[1].value))
        elif n in TWO:
            ts = [t.value for t in ins.targets_copy()]
            for a, b in zip(ts[::2], ts[1::2]):
                cur[a], cur[b] = TWO[n]
                con.append((a, b))
        else:
            for t in ins.targets_copy():
                cur[t.value] = ONE[n]
    if cur:
        layers.append((cur, con))
    return coords, layers


def place(xy, z, n):
    """(row, column) of a qubit's mark in a layer: rows follow the first coordinate, columns the second, layers go down-right."""
    x, y = xy
    return math.ceil((x + 1) * (n + 2) + z), math.ceil((2 * y + 2) * (n + 3) + z)


class Strokes:
    """Cells covered by lines across and down, and the open ends of connections around the torus."""
    def __init__(self):
        self.across, self.down, self.ends, self.unclear = {}, {}, set(), False

    def line(self, p, q):
        (r0, c0), (r1, c1) = sorted([p, q])
        if c0 == c1:
            for r in range(r0, r1 + 1):
                self.down[r, c0] = self.down.get((r, c0), 0) + 1
        if r0 == r1:
            for c in range(min(c0, c1), max(c0, c1) + 1):
                self.across[r0, c] = self.across.get((r0, c), 0) + 1

    def cells(self):
        out = {}
        for p in {*self.across, *self.down, *self.ends}:
            h, v = self.across.get(p, 0), self.down.get(p, 0)
            out[p] = "~" if p in self.ends else "+" if h == v == 1 else "+|-=" if h and v else "-=" if h > 1 else "-" if h else "|"
            if self.unclear:
                out[p] += "+|-=~"
        return out


def connector(drawn, a, b, xs, ys, at, ctx):
    """The line of one two-qubit operation: straight between the qubits, or two open ends when they lie on opposite edges."""
    (ax, ay), (bx, by) = a, b
    around_x, around_y = {ax, bx} == {min(xs), max(xs)}, {ay, by} == {min(ys), max(ys)}
    if (around_x and (ay != by or min(xs) == max(xs))) or (not around_x and around_y and (ax != bx or min(ys) == max(ys))):
        drawn.unclear = True      # a corner to corner connection, or a single row: no defined picture
    elif around_x or around_y:
        for (x, y), s in ((min(a, b), -1), (max(a, b), 1)):
            end = at(x + s * 0.5, y) if around_x else at(x, y + s * 0.25)
            drawn.line(at(x, y), end)
            drawn.ends.add(end)
        ctx.label("wrapping connector")
    else:
        drawn.line(at(*a), at(*b))
        ctx.label("connector" if ax == bx or ay == by else "oblique")


def verify(c, body_only, ctx, what):
    from circuit_diagrams import plot_circuit
    coords, layers = expected(c, body_only)
    with sut("drawing " + what):
        text = plot_circuit(c, only_repeat_block=body_only)
    lines = text.split("\n")
    n = len(layers)

    def at(r, col):
        return lines[r][col] if 0 <= r < len(lines) and 0 <= col < len(lines[r]) else " "
    marks = {}
    for z, (cur, con) in enumerate(layers):
        for q, xy in coords.items():
            p = place(xy, z, n)
            require(p not in marks, "harness: two marks share a position")
            marks[p] = cur.get(q, "\\")
            require(at(*p) == marks[p], "qubit %d of layer %d/%d shows %r instead of %r", q, z, n, at(*p), marks[p])
    xs, ys = [v[0] for v in coords.values()], [v[1] for v in coords.values()]
    drawn = Strokes()
    for z, (cur, con) in enumerate(layers):
        for a, b in con:
            connector(drawn, coords[a], coords[b], xs, ys, lambda x, y: place((x, y), z, n), ctx)
    for r, line in enumerate(lines):
        for col, ch in enumerate(line):
            if ch != " " and (r, col) not in marks:
                require(ch in "-|+=~", "stray %r at row %d column %d", ch, r, col)
        require(line == line.rstrip(), "trailing blanks")
    for p, why in drawn.cells().items():
        if p not in marks:
            require(at(*p) in why, "row %d column %d shows %r, the connections drawn there make it one of %r", *p, at(*p), why)
    if not drawn.unclear:
        for r, line in enumerate(lines):
            for col, ch in enumerate(line):
                require(ch == " " or (r, col) in marks or (r, col) in drawn.across or (r, col) in drawn.down or (r, col) in drawn.ends,
                        "a line %r at row %d column %d that no operation explains", ch, r, col)
    ctx.mark(n > 1 and any(cur for cur, _ in layers))


def check_generated(case, ctx):
    conf.classes(case, ctx)
    with sut("generating"):
        c = conf.layout(case).make_circuit()
    noiseless = dict(case, noise=0)
    has_loop = any(isinstance(i, stim.CircuitRepeatBlock) for i in c)
    if has_loop:
        verify(c, True, ctx, "the repeated part")
        ctx.label("loop body")
    if c.num_ticks <= 80:
        verify(c, False, ctx, "the circuit")
        ctx.label("whole circuit")
    if case["noise"] and has_loop:
        from circuit_diagrams import plot_circuit
        with sut("drawing without noise"):
            a, b = plot_circuit(c, only_repeat_block=True), plot_circuit(conf.layout(noiseless).make_circuit(), only_repeat_block=True)
        require(a == b, "noise changes the diagram")


def build(case):
    c = stim.Circuit()
    n = len(case["coords"])
    for q, (x, y) in enumerate(case["coords"]):
        c.append("QUBIT_COORDS", [q], [x, y])

    def layer(c, ops):
        used = set()
        for name, a, b, noise in ops:
            a, b = a % n, b % n
            if name.startswith("MPP"):
                if a in used or (len(name) == 5 and (b in used or a == b)):
                    continue
                g = [getattr(stim, "target_" + name[3].lower())(a)]
                if len(name) == 5:
                    g += [stim.target_combiner(), getattr(stim, "target_" + name[4].lower())(b)]
                    used.add(b)
                c.append("MPP", g)
            elif name in TWO:
                if a in used or b in used or a == b:
                    continue
                c.append(name, [a, b])
                used.add(b)
                if noise:
                    c.append("DEPOLARIZE2", [a, b], 0.125)
            else:
                if a in used:
                    continue
                if noise:
                    c.append("X_ERROR", [a], 0.25)
                c.append(name, [a])
                if noise:
                    c.append("DEPOLARIZE1", [a], 0.125)
            used.add(a)

    def block(parts, depth):
        c = stim.Circuit()
        for p in parts:
            if "body" in p:
                body = block(p["body"], depth + 1)
                if len(body):
                    c.append(stim.CircuitRepeatBlock(p["reps"], body))
            else:
                layer(c, p["ops"])
                if p["tick"]:
                    c.append("TICK")
                if p["note"]:
                    c.append("SHIFT_COORDS", [], [0, 0, 1])
                    c.append("DETECTOR", [], [1, 2, 3])
        return c
    return c + block(case["parts"], 0)


def check_random(case, ctx):
    c = build(case)
    loop = any(isinstance(i, stim.CircuitRepeatBlock) for i in c)
    try:
        coords, layers = expected(c, False)
        clash = False
    except ValueError:
        raise
    # a layer merged across an iteration boundary may hit a qubit twice: those circuits are not layered, skip
    for body_only in ([False, True] if loop else [False]):
        if not layered(c, body_only):
            ctx.label("not layered")
            continue
        coords, layers = expected(c, body_only)
        if not layers or len(layers) > 60:
            continue
        verify(c, body_only, ctx, "the repeated part" if body_only else "the circuit")


def layered(c, body_only):
    ops = []
    if body_only:
        for ins in c:
            if isinstance(ins, stim.CircuitRepeatBlock):
                ops.extend(ins.body_copy().flattened())
    else:
        ops = list(c.flattened())
    used = set()
    for ins in ops:
        if ins.name == "TICK":
            used = set()
        elif ins.name not in IGNORED:
            for t in ins.targets_copy():
                if not t.is_combiner:
                    if t.value in used:
                        return False
                    used.add(t.value)
    return True


def check_2d(case, ctx):
    from circuit_diagrams import diagram_2d
    values, cells = {}, {}
    for x, y, s in case["cells"]:
        span = [(y, x - len(s) + 1 + k) for k in range(len(s))]
        if any(col < 0 or p in cells for p in span for col in [p[1]]):
            continue
        values[complex(x, y)] = int(s) if s.isdigit() and not s.startswith("0") else s
        for p, ch in zip(span, s):
            cells[p] = ch
    if case["float_keys"]:
        values = {complex(float(k.real), float(k.imag)): v for k, v in values.items()}
    with sut("drawing in two dimensions"):
        text = diagram_2d(values)
    lines = text.split("\n")
    got = {(r, col): ch for r, l in enumerate(lines) for col, ch in enumerate(l) if ch != " "}
    require(got == {p: ch for p, ch in cells.items() if ch != " "}, "diagram %r of %r", text, values)
    ctx.mark(len(values) > 2)
    ctx.label("multi-character" if any(len(s) > 1 for _, _, s in case["cells"]) else "single characters")


@st.composite
def gen_cases(draw):
    c = draw(conf.configs(max_vol=2500, max_tw=4, max_n=40, noises=(0, 0.001, 0.01)))
    if c["style"] == "EM3_v2":
        c["noise"] = 0
    return c


NAMES = sorted(ONE) + sorted(TWO) + ["MPPX", "MPPY", "MPPZ", "MPPXX", "MPPYY", "MPPZZ", "MPPXZ"]


@st.composite
def random_cases(draw):
    half = draw(st.booleans())
    k = 2 if half else 1
    coords = draw(st.lists(st.tuples(st.integers(0, 3 * k), st.integers(0, 3 * k)), min_size=1, max_size=7, unique=True))
    op = st.tuples(st.sampled_from(NAMES), st.integers(0, 6), st.integers(0, 6), st.booleans()).map(list)
    part = st.fixed_dictionaries(dict(ops=st.lists(op, max_size=5), tick=st.integers(0, 5).map(lambda v: v > 0), note=st.booleans()))
    inner = st.fixed_dictionaries(dict(body=st.lists(part, min_size=1, max_size=3), reps=st.integers(1, 4)))
    outer = st.fixed_dictionaries(dict(body=st.lists(st.one_of(part, part, inner), min_size=1, max_size=3), reps=st.integers(1, 4)))
    return dict(coords=[[x // k if half else x, y / k] for x, y in coords if not half or x % 2 == 0] or [[0, 0]], parts=draw(st.lists(st.one_of(part, outer), min_size=1, max_size=5)))


cells = st.fixed_dictionaries(dict(cells=st.lists(st.tuples(st.integers(0, 12), st.integers(0, 8), st.text("abXYZ+-|1290", min_size=1, max_size=3)).map(list), max_size=14),
                                   float_keys=st.booleans()))

PROP = Prop(
    id="C29",
    rule="Cases are generated honeycomb circuits (whole and loop body), random layered circuits over random coordinates with loops, noise and "
         "annotations, and random value grids; non-trivial when several layers (values) are drawn. Oracle: marks and positions computed "
         "from the circuit, every other character must be part of a connecting line.",
    assumptions=["noisy EM3_v2 circuits (correlated errors) are not drawable and left out", "circuits are layered: one operation per qubit between ticks",
                 "coordinates are non-negative; in random circuits the first is whole and the second a multiple of one half (as the wrap marks of arbitrary positions may cover others)"],
    subs=[Sub("generated", check_generated, gen_cases(), quick=250, thorough=5000),
          Sub("random", check_random, random_cases(), quick=2000, thorough=40000),
          Sub("2d", check_2d, cells, quick=2000, thorough=40000)],
)
