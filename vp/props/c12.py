from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import conf, refmodel


def xy(z):
    return (z.real, z.imag)


def op_of(res, what):
    b, qs = res
    require(b in ("X", "Y", "Z"), "%s: basis %r", what, b)
    out = {xy(q): b for q in qs}
    require(len(out) == len(qs), "%s: repeated qubits", what)
    return out


def commute(a, b):
    return sum(1 for q, p in a.items() if q in b and b[q] != p) % 2 == 0


def mul(a, b):
    out = dict(a)
    for q, p in b.items():
        r = refmodel.pauli_mul(out.get(q, "I"), p)
        if r == "I":
            out.pop(q, None)
        else:
            out[q] = r
    return out


def check(case, ctx):
    g = conf.g_of(case)
    k = case["k"]
    with sut("listing the operators"):
        lay = conf.layout(case)
        H = [op_of(lay.obs_h_before_sub_round(k + i), "H") for i in range(7)]
        V = [op_of(lay.obs_v_before_sub_round(k + i), "V") for i in range(7)]
        tracked = op_of(lay.obs_before_sub_round(k), "tracked")
        edges = {"H": lay.obs_h_edges, "V": lay.obs_v_edges}
        tracked_edges, tracked_qubits, idx = lay.obs_edges, lay.obs_qubits, lay.obs_index
    require(tracked == (H if case["obs"] == "H" else V)[0], "obs_before_sub_round does not follow the layout's choice")
    require(list(tracked_edges) == list(edges[case["obs"]]) and idx == (1 if case["obs"] == "H" else 0) and
            {xy(q) for q in tracked_qubits} == set(g.path(case["obs"])), "tracked path does not follow the choice")
    require(H[6] == H[0] and V[6] == V[0], "operators are not periodic in the sub-round")
    for name, ops in (("H", H), ("V", V)):
        for i in range(6):
            t = k + i
            require(ops[i] == g.operator(name, t), "%s operator before sub-round %d is not the path operator", name, t)
            for col in range(3):
                for c in g.hexes[col]:
                    hexop = {q: "XYZ"[col] for q in g.hex_qubits(c)}
                    require(commute(ops[i], hexop), "%s operator before sub-round %d anticommutes with hexagon %r",
                            name, t, c)
            col = t % 3
            for c, (a, b) in g.edges[col].items():
                require(commute(ops[i], {a: "XYZ"[col], b: "XYZ"[col]}),
                        "%s operator anticommutes with edge %r measured in sub-round %d", name, c, t)
            step = dict(ops[i])
            for e in edges[name]:
                if g.edge_color.get(xy(e.center)) == col:
                    step = mul(step, {xy(e.left): "XYZ"[col], xy(e.right): "XYZ"[col]})
            require(step == ops[i + 1], "%s operator times the path's edges of sub-round %d is not the next operator",
                    name, t)
    for i in range(6):
        j = (i + 3) % 6
        require(not commute(H[i], V[i]), "H and V commute before sub-round %d", k + i)
        require(commute(H[i], V[j]), "H and V three sub-rounds apart anticommute (sub-round %d)", k + i)
        require(commute(H[i], H[j]) and commute(V[i], V[j]), "an operator anticommutes with its shifted version")
        require(not commute(H[j], V[j]), "the second pair commutes")
    ctx.mark()
    ctx.label(f"k%6={k % 6}", f"obs {case['obs']}")


def cases():
    return st.builds(lambda c, k: dict(c, k=k), conf.configs(max_vol=10**9, max_tw=10, max_th=6, max_n=20),
                     st.integers(0, 40) | st.integers(0, 10**7))


PROP = Prop(
    id="C12",
    rule="Cases are (layout, sub-round); all are non-trivial. Six consecutive operators of both kinds are checked "
         "against every hexagon, every measured edge and each other by counting anticommuting positions.",
    subs=[Sub("operators", check, cases(), quick=500, thorough=8000,
              explicit=lambda t: [dict(c, k=k) for c in conf.grid([(w, h) for w in (2, 4, 6, 8, 10) for h in (6, 12, 18, 24)] + [(60, 6), (2, 120), (20, 30), (100, 12)], (3,),
                                                                 styles=("SD6", "EM3")) for k in range(6)])],
)
