from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, rejects
from .. import conf


def xy(z):
    return (z.real, z.imag)


def is_sorted(seq):
    ks = [xy(z) for z in seq]
    return ks == sorted(ks) and len(set(ks)) == len(ks)


def ekey(e):
    return (xy(e.center), frozenset([xy(e.left), xy(e.right)]))


def check(case, ctx):
    w, h, style = case["w"], case["h"], case["style"]
    g = conf.g_of(case)
    with sut("computing the layout"):
        lay = conf.layout(case)
        order = case.get("order", [])
        # Listings must not depend on the order in which they are computed (they are cached).
        for name in order:
            getattr(lay, name)
        rounds = [lay.round_edges(r) for r in range(3)]
        hexes = [lay.round_hex_centers(r) for r in range(3)]
        data, meas = lay.data_qubit_coords, lay.measure_qubit_coords
        q2i = lay.q2i
    n_data = w * h
    # Edges.
    for r in range(3):
        want = {(c, frozenset(ab)) for c, ab in g.edges[r].items()}
        got = [ekey(e) for e in rounds[r]]
        require(len(got) == len(set(got)) and set(got) == want, "edges of type %d are not those of the lattice", r)
        require(is_sorted([e.center for e in rounds[r]]), "edges of type %d are not sorted by centre", r)
        for e in rounds[r]:
            a, b = xy(e.left), xy(e.right)
            require((g.parity(a), g.parity(b)) == (0, 1),
                    "edge %r: endpoints are not ordered by checkerboard class", e)
        for k in (r + 3, r + 3 * case["far"], r - 3):
            require(tuple(lay.round_edges(k)) == tuple(rounds[r]), "round_edges(%d) is not periodic", k)
        require(lay.sub_round_edge_basis(r + 3 * case["far"]) == "XYZ"[r], "basis of sub-round %d", r)
        touched = [xy(q) for e in rounds[r] for q in (e.left, e.right)]
        require(len(touched) == n_data and set(touched) == set(g.data),
                "a data qubit is not on exactly one edge of type %d", r)
    require([ekey(e) for e in lay.all_edges] == [ekey(e) for r in range(3) for e in rounds[r]],
            "all_edges is not the three types in order")
    # Hexagons.
    color_of = {}
    for r in range(3):
        require(is_sorted(hexes[r]), "hexagons of type %d are not sorted", r)
        require({xy(c) for c in hexes[r]} == set(g.hexes[r]) and len(hexes[r]) == len(g.hexes[r]),
                "hexagons of type %d are not those of the lattice", r)
        for c in hexes[r]:
            color_of[xy(c)] = r
    edge_color = {ekey(e): r for r in range(3) for e in rounds[r]}
    edge_obj = {ekey(e): e for r in range(3) for e in rounds[r]}
    hexes_of_edge = {}
    hexes_of_qubit = {}
    for r in range(3):
        for c in hexes[r]:
            qs = [xy(q) for q in lay.qubits_around_hex(c)]
            require(qs == sorted(qs) and len(set(qs)) == 6 and set(qs) == set(g.hex_qubits(xy(c))),
                    "hexagon %r: qubits %r", c, qs)
            first, second = lay.first_edges_around_hex(c), lay.second_edges_around_hex(c)
            for es, col, want in ((first, (r + 1) % 3, g.first_edges(xy(c))), (second, (r + 2) % 3, g.second_edges(xy(c)))):
                require(len(es) == 3 and {xy(e.center) for e in es} == set(want),
                        "hexagon %r: wrong edges around it", c)
                for e in es:
                    k = ekey(e)
                    require(edge_color.get(k) == col, "hexagon %r: edge %r is not a type %d edge", c, e, col)
                    require(e == edge_obj[k] and hash(e) == hash(edge_obj[k]) and not (e != edge_obj[k]),
                            "edge %r around hexagon is not equal to the listed edge", e)
                    hexes_of_edge.setdefault(k, []).append(xy(c))
            require(tuple(lay.all_edges_around_hex(c)) == tuple(first) + tuple(second), "all_edges_around_hex")
            covered = [xy(q) for e in first + second for q in (e.left, e.right)]
            require(sorted(covered) == sorted(2 * qs), "hexagon %r: its edges do not form a cycle over its qubits", c)
            for q in qs:
                hexes_of_qubit.setdefault(q, set()).add(r)
    # Each edge borders two hexagons of the two other types; with the two it ends on, neighbours differ in type.
    for k, r in edge_color.items():
        around = hexes_of_edge[k]
        require(len(around) == 2 and sorted(color_of[c] for c in around) == sorted({0, 1, 2} - {r}),
                "edge %r of type %d borders hexagons %r", k, r, around)
    require(all(hexes_of_qubit[q] == {0, 1, 2} for q in g.data), "a qubit is not on one hexagon of each type")
    # Listings and indices.
    require(is_sorted(data) and {xy(q) for q in data} == set(g.data), "data qubit listing")
    require(is_sorted(meas) and {xy(q) for q in meas} == set(g.edge_color), "measurement qubit listing")
    require(list(q2i.values()) == list(range(len(g.data) + len(g.edge_color))) and
            [xy(q) for q in q2i] == [xy(q) for q in data] + [xy(q) for q in meas], "qubit indices")
    idx = {xy(q): i for q, i in q2i.items()}
    require(list(lay.data_qubit_indices) == [idx[xy(q)] for q in data], "data indices")
    require(list(lay.measure_qubit_indices) == [idx[xy(q)] for q in meas], "measurement indices")
    used = data if style in ("EM3", "EM3_v2") else tuple(data) + tuple(meas)
    require([xy(q) for q in lay.used_qubit_coords] == [xy(q) for q in used], "used qubits")
    require(list(lay.used_qubit_indices) == [idx[xy(q)] for q in used], "used indices")
    require(lay.num_qubits == len(used), "num_qubits %r, expected %d", lay.num_qubits, len(used))
    require(list(lay.data_qubit_indices_1st) == [idx[xy(q)] for q in data if g.parity(xy(q)) == 0], "first class")
    require(list(lay.data_qubit_indices_2nd) == [idx[xy(q)] for q in data if g.parity(xy(q)) == 1], "second class")
    some = [i % len(idx) for i in case["except"]]
    require(lay.qubit_indices_except(some) == sorted(set(idx.values()) - set(some)), "qubit_indices_except")
    # Periodicity.
    for px, py, kx, ky in case["points"]:
        z = complex(px / 2, py / 2)
        a = lay.wrap(z)
        b = lay.wrap(z + kx * 2 * w + ky * h * 1j)
        require(a == b == complex((px / 2) % (2 * w), (py / 2) % h), "wrap(%r) = %r, %r", z, a, b)
    for r in range(3):
        for c in (hexes[r][0], hexes[r][-1]):
            for kx, ky in ((1, 0), (0, 1), (-1, 2)):
                far = c + kx * 2 * w + ky * h * 1j
                require(lay.qubits_around_hex(far) == lay.qubits_around_hex(c) and
                        lay.all_edges_around_hex(far) == lay.all_edges_around_hex(c),
                        "hexagon %r is not periodic", c)
    # Paths.
    for obs, edges, qubits in (("H", lay.obs_h_edges, lay.obs_h_qubits), ("V", lay.obs_v_edges, lay.obs_v_qubits)):
        require({ekey(e) for e in edges} == {(c, frozenset(g.edges[r][c])) for r in range(3)
                                             for c in g.path_edges(obs, r)} and
                len(set(map(ekey, edges))) == len(edges), "%s path edges", obs)
        require({xy(q) for q in qubits} == set(g.path(obs)) and len(qubits) == len(g.path(obs)), "%s path qubits", obs)
        deg = {}
        for e in edges:
            for q in (e.left, e.right):
                deg[xy(q)] = deg.get(xy(q), 0) + 1
        require(set(deg.values()) == {2} and len(deg) == len(qubits), "%s path is not a closed loop", obs)
    ctx.mark()
    ctx.label(style, "square" if 2 * w == h else "wide" if 2 * w > h else "tall", "order" if case.get("order") else "natural order")


def check_reject(case, ctx):
    from honeycomb_layout import HoneycombLayout
    kw = dict(data_width=4, data_height=12, sub_rounds=6, style="SD6", obs="H", noise=0.0)
    kw.update(case["kw"])
    if case["when"] == "size":
        rejects(lambda: HoneycombLayout(**kw), f"layout {case['kw']}")
    else:
        rejects(lambda: HoneycombLayout(**kw).make_circuit(), f"circuit of {case['kw']}")
    ctx.mark()
    ctx.label(case["when"])


LAZY = ["all_edges", "data_qubit_coords", "measure_qubit_coords", "q2i", "used_qubit_coords", "obs_h_edges",
        "obs_v_qubits", "data_qubit_indices_2nd", "num_qubits", "obs_v_edges", "obs_h_qubits", "coord_width",
        "measure_qubit_indices", "used_qubit_indices"]


@st.composite
def cases(draw, max_tw=10, max_th=6):
    c = draw(conf.configs(max_vol=10**9, max_tw=max_tw, max_th=max_th, max_n=30))
    pt = st.tuples(st.integers(-200, 200), st.integers(-200, 200), st.integers(-3, 3), st.integers(-3, 3))
    return dict(c, far=draw(st.integers(-1000, 10**6)), points=draw(st.lists(pt, max_size=5)),
                order=draw(st.lists(st.sampled_from(LAZY), max_size=4, unique=True)),
                **{"except": draw(st.lists(st.integers(0, 2000), max_size=6))})


def ex(tier):
    for c in conf.grid([(w, h) for w in range(2, 18, 2) for h in (6, 12, 18, 24)] + [(22, 6), (2, 42), (26, 12), (20, 30), (64, 6), (100, 12), (2, 150), (6, 120), (40, 60)], (3,)):
        if c["obs"] == "H":
            yield dict(c, far=7, points=[[-3, -5, 1, -1], [9, 200, 2, 3]], **{"except": [0, 5]})


def ex_rej(tier):
    for w in (1, 3, 5, 7, 9, 11, 13, 15, 21, 33, 101):
        yield dict(kw=dict(data_width=w), when="size")
    for h in [v for v in range(1, 50) if v % 6] + [99, 100, 101, 1001]:
        yield dict(kw=dict(data_height=h), when="size")
    for s in ("sd6", "EM4", "", "SI1001", "CP3", "EM3_v3"):
        yield dict(kw=dict(style=s), when="circuit")
    for o in ("X", "Z", "", "h", "HV"):
        yield dict(kw=dict(obs=o), when="circuit")
    for s in ("SD6", "PC3", "EM3", "EM3_v2", "SI1000"):
        yield dict(kw=dict(sub_rounds=0, style=s), when="circuit")
    for n in (1, 2, 4, 5, 7, 100, 101):
        yield dict(kw=dict(sub_rounds=n, style="SI1000"), when="circuit")


PROP = Prop(
    id="C11",
    rule="Cases are layouts with off-torus positions, index subsets and orders of evaluating the cached listings, and "
         "unsupported parameters; all are non-trivial. Every listing is compared with an independently written "
         "honeycomb torus and the structural claims are checked on the returned objects.",
    subs=[Sub("geometry", check, cases(), quick=500, thorough=8000, explicit=ex),
          Sub("rejects", check_reject, explicit=ex_rej)],
)
