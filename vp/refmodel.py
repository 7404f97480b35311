"""Independent reference model of the honeycomb memory experiment (shares no code with /repo).

Written from Hastings & Haah's schedule and the repository's documented coordinates: data qubits at odd x,
hexagons at even x, all coordinates modulo (2 * data width, data height).
"""
import functools
from typing import Dict, FrozenSet, List, Tuple

import stim

P2 = Tuple[float, float]
STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]
H_BASES = "XXZZYY"
V_BASES = "ZYYXXZ"


class Geo:
    """Geometry of the w x h torus: edges[c] = {centre: (left, right)}, hexes[c] = [centre]."""

    def __init__(self, w: int, h: int):
        assert w >= 2 and w % 2 == 0 and h >= 6 and h % 6 == 0
        self.w, self.h, self.W = w, h, 2 * w
        self.data: List[P2] = [(x, y) for x in range(1, self.W, 2) for y in range(h)]
        self.edges: List[Dict[P2, Tuple[P2, P2]]] = [{}, {}, {}]
        self.edge_color: Dict[P2, int] = {}
        for x in range(1, self.W, 2):
            for y in range(h):
                self._edge((x, (y + 0.5) % h), (x, y), (x, (y + 1) % h), (y - 1) % 3)
        for X in range(0, self.W, 2):
            for y in range(h):
                if y % 2 != (X // 2) % 2:
                    self._edge((X, y), ((X - 1) % self.W, y), ((X + 1) % self.W, y), y % 3)
        self.hexes: List[List[P2]] = [[], [], []]
        for X in range(0, self.W, 2):
            for Y in range(h):
                if Y % 2 == (X // 2) % 2:
                    self.hexes[Y % 3].append((X, Y))

    def _edge(self, center, a, b, color):
        if self.parity(a):
            a, b = b, a
        self.edges[color][center] = (a, b)
        self.edge_color[center] = color

    @staticmethod
    def parity(q) -> int:
        return int((q[0] // 2 + q[1]) % 2)

    def wrap(self, x, y) -> P2:
        return (x % self.W, y % self.h)

    def hex_qubits(self, c) -> List[P2]:
        X, Y = c
        return [self.wrap(X + dx, Y + dy) for dx in (-1, 1) for dy in (-1, 0, 1)]

    def first_edges(self, c) -> List[P2]:
        X, Y = c
        return [self.wrap(X + 1, Y - 0.5), self.wrap(X - 1, Y - 0.5), self.wrap(X, Y + 1)]

    def second_edges(self, c) -> List[P2]:
        X, Y = c
        return [self.wrap(X + 1, Y + 0.5), self.wrap(X - 1, Y + 0.5), self.wrap(X, Y - 1)]

    @functools.cached_property
    def h_path(self) -> List[P2]:
        return [q for q in self.data if q[1] in (0, 1)]

    @functools.cached_property
    def v_path(self) -> List[P2]:
        return [q for q in self.data if q[0] == 1]

    def path(self, obs) -> List[P2]:
        return self.h_path if obs == "H" else self.v_path

    def path_edges(self, obs, color) -> List[P2]:
        s = set(self.path(obs))
        if obs == "H":
            return [c for c, (a, b) in self.edges[color].items() if a in s and b in s]
        return [c for c, (a, b) in self.edges[color].items() if a[0] == 1 and b[0] == 1]

    def operator(self, obs, k) -> Dict[P2, str]:
        """The logical operator before sub-round k: start operator times the path edges measured so far."""
        return dict(self._operator(obs, k % 6))

    @functools.lru_cache(maxsize=None)
    def _operator(self, obs, k):
        if k == 0:
            if obs == "H":
                return {q: "X" for q in self.h_path}
            return {q: "Z" for q in self.v_path if q[1] % 3 != 0}
        op = dict(self._operator(obs, k - 1))
        c = (k - 1) % 3
        for center in self.path_edges(obs, c):
            for q in self.edges[c][center]:
                p = pauli_mul(op.get(q, "I"), "XYZ"[c])
                if p == "I":
                    op.pop(q, None)
                else:
                    op[q] = p
        return op

    def basis(self, obs, k) -> str:
        return (H_BASES if obs == "H" else V_BASES)[k % 6]


def pauli_mul(a, b):
    if a == "I":
        return b
    if b == "I":
        return a
    if a == b:
        return "I"
    return ({"X", "Y", "Z"} - {a, b}).pop()


@functools.lru_cache(maxsize=64)
def geo(w, h) -> Geo:
    return Geo(w, h)


# Record labels: ("e", k, centre) = parity of an edge in sub-round k; ("d", qubit) = final readout.

def expected_detectors(g: Geo, n: int, obs: str) -> List[Tuple[FrozenSet, P2]]:
    """[(set of labels, (x, y, t))]."""
    b = g.basis(obs, 0)
    bi = "XYZ".index(b)
    out = []
    known: Dict[P2, FrozenSet] = {}
    for c in g.hexes[bi]:
        known[c] = frozenset()
    for t in range(n):
        if t == 0 and bi == 0:
            for e in g.edges[0]:
                out.append((frozenset([("e", 0, e)]), (e[0], e[1], 0)))
        col = (t + 1) % 3
        for c in g.hexes[col]:
            val = frozenset(("e", t, e) for e in g.second_edges(c))
            if t >= 1:
                val ^= frozenset(("e", t - 1, e) for e in g.first_edges(c))
            elif bi != 2:
                continue   # the other half of the hexagon is neither measured nor known from the initial state
            if c in known:
                out.append((val ^ known[c], (c[0], c[1], t)))
            known[c] = val
    f = "XYZ".index(g.basis(obs, n))
    last = (n - 1) % 3
    if f == last:
        for e, (a, q) in g.edges[f].items():
            out.append((frozenset([("d", a), ("d", q), ("e", n - 1, e)]), (e[0], e[1], n)))
    else:
        other = 3 - f - last
        for c in g.hexes[other]:
            val = frozenset(("d", q) for q in g.hex_qubits(c)) ^ frozenset(("e", n - 1, e) for e in g.first_edges(c))
            if c in known:
                out.append((val ^ known[c], (c[0], c[1], n)))
    for c in g.hexes[f]:
        val = frozenset(("d", q) for q in g.hex_qubits(c))
        if c in known:
            out.append((val ^ known[c], (c[0], c[1], n)))
    return out


def expected_observable(g: Geo, n: int, obs: str) -> FrozenSet:
    s = set()
    for k in range(n):
        for e in g.path_edges(obs, k % 3):
            s ^= {("e", k, e)}
    for q in g.operator(obs, n):
        s ^= {("d", q)}
    return frozenset(s)


def schedule_circuit(g: Geo, n: int, obs: str, *, data_noise: float = 0.0):
    """The ideal schedule as stim text: (circuit, record labels in order, data index)."""
    idx = {q: i for i, q in enumerate(g.data)}
    lines, labels = [], []
    allq = " ".join(str(i) for i in range(len(idx)))
    b = g.basis(obs, 0)
    lines.append({"X": "RX", "Y": "RY", "Z": "RZ"}[b] + " " + allq)
    for k in range(n):
        if data_noise:
            lines.append(f"DEPOLARIZE1({data_noise}) {allq}")
        p = "XYZ"[k % 3]
        terms = []
        for e, (a, c) in g.edges[k % 3].items():
            terms.append(f"{p}{idx[a]}*{p}{idx[c]}")
            labels.append(("e", k, e))
        lines.append("MPP " + " ".join(terms))
    if data_noise:
        lines.append(f"DEPOLARIZE1({data_noise}) {allq}")
    lines.append({"X": "MX", "Y": "MY", "Z": "MZ"}[g.basis(obs, n)] + " " + allq)
    labels += [("d", q) for q in g.data]
    return stim.Circuit("\n".join(lines)), labels, idx
