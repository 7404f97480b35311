import math

import numpy as np
from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, close
from .. import circ, conf, scripts
from ..boot import SRC

SCRIPT = "paper/main_collect_all.py"
NOT_OPS = {"QUBIT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "TICK", "REPEAT"}


def strengths(c):
    out = set()

    def go(c):
        for ins in c:
            if isinstance(ins, stim.CircuitRepeatBlock):
                go(ins.body_copy())
            elif ins.name not in NOT_OPS and ins.gate_args_copy():
                for a in ins.gate_args_copy():
                    out.add(("E" if ins.name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR") else ins.name, a))
    go(c)
    return out


def expected_strengths(style, p):
    """(channel, strength) pairs a memory experiment must contain under the named noise model."""
    if p == 0:
        return set()
    if style in ("SD6", "PC3"):
        return {("X_ERROR", p), ("DEPOLARIZE1", p), ("DEPOLARIZE2", p)}
    if style == "EM3":
        return {("X_ERROR", p), ("DEPOLARIZE1", p), ("DEPOLARIZE2", p), ("MPP", p)}
    if style == "EM3_v2":
        return {("X_ERROR", p / 2), ("E", -math.expm1(math.log1p(-p) / 16) / 2)}
    return {("X_ERROR", 2 * p), ("X_ERROR", 5 * p), ("DEPOLARIZE1", p / 10), ("DEPOLARIZE1", 2 * p), ("DEPOLARIZE2", p)}


def same_strengths(got, want):
    return len(got) == len(want) and all(any(n == m and close(a, b, 1e-9) for m, b in want) for n, a in got)


def verify_honeycomb(desc, c, n=None):
    """Everything the description says, read off the circuit itself."""
    style = desc.circuit_style
    require(style.startswith("honeycomb_"), "style %r", style)
    style = style[len("honeycomb_"):]
    w, h = desc.data_width, desc.data_height
    coords = [i for i in c if isinstance(i, stim.CircuitInstruction) and i.name == "QUBIT_COORDS"]
    nq = sum(len(i.targets_copy()) for i in coords)
    require(nq == desc.num_qubits, "described as %d qubits, the circuit has %d", desc.num_qubits, nq)
    edges = w * h // 2
    subs, rest = divmod(c.num_measurements - w * h, edges)
    require(rest == 0 and subs > 0, "%d measurements do not fit a %dx%d layout", c.num_measurements, w, h)
    require(desc.rounds == -(-subs // 3), "described as %d rounds, the circuit has %d sub-rounds", desc.rounds, subs)
    if n is not None:
        require(subs == n, "%d sub-rounds, asked for %d", subs, n)
    require(desc.code_distance == min(w, 2 * h // 3), "described distance %d of a %dx%d layout", desc.code_distance, w, h)
    got, want = strengths(c), expected_strengths(style, desc.noise)
    # an operation kind that the layout does not happen to need (idling, single qubit gates) brings no channel
    require(all(any(a == m and close(b, x, 1e-9) for m, x in want) for a, b in got) and (bool(got) == bool(want)) and
            all(any(a == m and close(b, x, 1e-9) for a, b in got) for m, x in want if m in ("X_ERROR", "DEPOLARIZE2", "E", "MPP")),
            "described as %s at %r, the circuit has strengths %r", style, desc.noise, sorted(got))
    obs = [i for i in c.flattened() if i.name == "OBSERVABLE_INCLUDE"] if c.num_measurements < 4000 else None
    require(c.num_observables == {"V": 1, "H": 2}[desc.preserved_observable], "described as observable %s, %d observables annotated",
            desc.preserved_observable, c.num_observables)
    if obs:
        require({int(i.gate_args_copy()[0]) for i in obs} == {{"V": 0, "H": 1}[desc.preserved_observable]}, "observable index")
    # extent of the layout from the coordinates
    xs = sorted({tuple(i.gate_args_copy()[:2]) for i in coords})
    require(len(xs) == nq, "coordinates repeat")


def check_layout(case, ctx):
    conf.classes(case, ctx)
    with sut("describing"):
        lay = conf.layout(case)
        prob = lay.as_decoder_problem(case["decoder"])
        d = prob.desc
        c = prob.circuit_maker()
        label = lay.legend_label()
    require((d.data_width, d.data_height, d.noise, d.circuit_style, d.preserved_observable, d.decoder) ==
            (case["w"], case["h"], case["noise"], "honeycomb_" + case["style"], case["obs"], case["decoder"]), "description %r of %r", d, case)
    verify_honeycomb(d, c, case["n"])
    with sut("generating"):
        c2 = conf.layout(case).make_circuit()
    require(c == c2, "the described problem samples another circuit than the layout makes")
    require(f"{case['w']}x{case['h']}" in label and str(case["n"] // 3) in label and (not case["noise"] or repr(case["noise"]) in label or str(case["noise"]) in label),
            "legend label %r of %r", label, case)
    ctx.mark()


_state = {}


def problems():
    if "p" not in _state:
        mod = scripts.load(SCRIPT)
        with sut("listing problems"):
            _state["h"] = mod.honeycomb_problems()
            _state["s"] = mod.surface_code_problems(str(SRC / "paper" / "surface_code_circuits"))
        _state["p"] = _state["h"] + _state["s"]
    return _state["p"]


def check_list(case, ctx):
    ps = problems()
    ds = [p.desc for p in ps]
    require(len(set(ds)) == len(ds), "%d problems share descriptions", len(ds) - len(set(ds)))
    require(len(_state["h"]) > 0 and len(_state["s"]) > 0, "no problems")
    noises = {d.noise for d in ds}
    fams = {}
    for d in ds:
        fams.setdefault((d.circuit_style, d.preserved_observable, d.decoder, d.code_distance), set()).add(d.noise)
        require(d.rounds == 3 * d.code_distance, "%d rounds for distance %d", d.rounds, d.code_distance)
        if d.circuit_style.startswith("honeycomb"):
            require(2 * d.data_height == 3 * d.data_width, "%dx%d", d.data_width, d.data_height)
        else:
            require(d.num_qubits == 2 * d.code_distance ** 2 - 1, "%d qubits at distance %d", d.num_qubits, d.code_distance)
    require(all(v == noises for v in fams.values()), "some problems are missing noise strengths")
    for code, obs in (("honeycomb", {"H", "V"}), ("surface", {"X", "Z"})):
        styles = {d.circuit_style for d in ds if d.circuit_style.startswith(code)}
        full = {(s, o, dec, dist) for s in styles for o in obs for dec in {d.decoder for d in ds}
                for dist in {d.code_distance for d in ds if d.circuit_style.startswith(code)}}
        require({k for k in fams if k[0].startswith(code)} == full, "the %s problems do not form a full sweep", code)
    mod = scripts.load(SCRIPT)
    for none in (None, "", "-"):
        with sut("no surface codes"):
            require(mod.surface_code_problems(none) == [], "surface problems without a directory")
    ctx.mark()
    ctx.label(f"{len(ds)} problems")


def check_problem(case, ctx):
    ps = problems()
    p = ps[case % len(ps)]
    with sut("making the circuit"):
        c = p.circuit_maker()
    d = p.desc
    ctx.label(d.circuit_style, f"d={d.code_distance}")
    ctx.mark()
    if d.circuit_style.startswith("honeycomb"):
        verify_honeycomb(d, c)
        from honeycomb_layout import HoneycombLayout
        with sut("making the described circuit"):
            want = HoneycombLayout(data_width=d.data_width, data_height=d.data_height, sub_rounds=3 * d.rounds, noise=d.noise,
                                   style=d.circuit_style[len("honeycomb_"):], obs=d.preserved_observable).make_circuit()
        require(c == want, "problem %d does not sample the circuit it describes", case)
    else:
        verify_surface(d, c, case)


def check_order(case, ctx):
    """Several problems asked for their circuits one after the other, repeatedly, in one process."""
    ps = problems()
    small = _state.setdefault("small", [i for i, p in enumerate(ps) if p.desc.code_distance <= 4])
    first = ps[small[case["i"] % len(small)]]
    fields = ["noise", "circuit_style", "preserved_observable", "decoder"]
    near = [p for p in (ps[i] for i in small) if p.desc.code_distance == first.desc.code_distance and
            sum(getattr(p.desc, f) != getattr(first.desc, f) for f in fields) == 1]
    same = [p for p in near if getattr(p.desc, case["field"]) != getattr(first.desc, case["field"])] or near
    others = [same[k % len(same)] for k in case["picks"]]
    for p in [first, *others, first]:
        with sut("making the circuit"):
            c = p.circuit_maker()
        if p.desc.circuit_style.startswith("honeycomb"):
            verify_honeycomb(p.desc, c)
        else:
            verify_surface(p.desc, c, case)
    ctx.label("order " + case["field"], first.desc.circuit_style)
    ctx.mark()


def verify_surface(d, c, case):
    kind = d.circuit_style[len("surface_"):]
    dist = d.code_distance
    used = set()
    for ins in c.flattened():
        if ins.name not in NOT_OPS and ins.name not in circ.NOISE:
            used |= {t.value for t in ins.targets_copy() if t.is_qubit_target}
    require(len(used) == d.num_qubits, "described as %d qubits, the circuit uses %d", d.num_qubits, len(used))
    require(c.num_detectors == (dist * dist - 1) * d.rounds, "%d detectors for distance %d and %d rounds", c.num_detectors, dist, d.rounds)
    require(c.num_measurements == (dist * dist - 1) * d.rounds + dist * dist, "%d measurements for distance %d and %d rounds", c.num_measurements, dist, d.rounds)
    require(same_strengths(strengths(c), expected_strengths(kind, d.noise)) or
            same_strengths(strengths(c), expected_strengths(kind, d.noise) | {("Z_ERROR", d.noise)}),
            "described as %s at %r, the circuit has strengths %r", kind, d.noise, sorted(strengths(c)))
    require(c.num_observables == 1, "%d observables", c.num_observables)
    ideal = circ.strip_noise(c)
    path = SRC / "paper" / "surface_code_circuits" / f"{kind.lower()}_{d.preserved_observable}" / f"d{dist}_p0.0.stim"
    require(ideal == stim.Circuit(path.read_text()), "the ideal part is not the stored circuit of its description")


def check_stored(case, ctx):
    """Stored surface code circuits: distance, silence without noise, and the protected observable."""
    kind, obs, dist = case["kind"], case["obs"], case["d"]
    mod = scripts.load(SCRIPT)
    with sut("loading"):
        c0 = mod.surface_code_circuit(str(SRC / "paper" / "surface_code_circuits"), kind, 0.0, obs, dist)
        c = mod.surface_code_circuit(str(SRC / "paper" / "surface_code_circuits"), kind, case["p"], obs, dist)
    require(not strengths(c0), "noise at strength zero")
    det, ob = c0.compile_detector_sampler(seed=5).sample(64, separate_observables=True)
    require(not det.any() and not ob.any(), "a noiseless run fires")
    require(same_strengths(strengths(c), expected_strengths(kind, case["p"])), "strengths %r for %s at %r", sorted(strengths(c)), kind, case["p"])
    with sut("error model"):
        c.detector_error_model(decompose_errors=True)
    if dist <= (11 if ctx.tier == "quick" else 19):
        got = len(c.shortest_graphlike_error(canonicalize_circuit_errors=False))
        require(got == dist, "the circuit described as distance %d has distance %d", dist, got)
        ctx.label("distance checked")
    # the opposite observable's circuit has its first detectors elsewhere; the other noise style agrees
    first = lambda k, o: frozenset(tuple(v[:2]) for v in stim.Circuit(
        (SRC / "paper" / "surface_code_circuits" / f"{k.lower()}_{o}" / f"d{dist}_p0.0.stim").read_text()).get_detector_coordinates().values()
        if v[-1] == 0)
    a, b = first(kind, obs), first(kind, "XZ"[obs == "X"])
    require(len(a) == (dist * dist - 1) // 2 and not a & b, "first detectors of X and Z overlap")
    require(a == first({"SD6": "SI1000", "SI1000": "SD6"}[kind], obs), "the two noise styles protect different observables")
    ctx.mark()
    ctx.label(kind + obs)


def check_bad(case, ctx):
    from ..core import rejects
    mod = scripts.load(SCRIPT)
    rejects(lambda: mod.surface_code_circuit(str(SRC / "paper" / "surface_code_circuits"), case["kind"], 0.001, "X", 3), "noise model " + case["kind"])
    ctx.mark()


def pick(tier):
    """Every small problem, and a spread of the large ones."""
    n = 1500
    for i in range(n):
        h = i < 900
        u = (i // 6) % 5 + 1 if h else ((i - 900) // 60) % 5 + 1
        if tier == "thorough" or u == 1 or (u == 2 and i % 5 == 0) or (u >= 3 and (i * 7919) % 101 < (3 if u < 5 else 1)):
            yield i


@st.composite
def lays(draw):
    c = draw(conf.configs(max_vol=5000, max_tw=8, max_n=40, noises=(0, 0.001, 0.003, 0.0125)))
    c["decoder"] = draw(st.sampled_from(["pymatching", "internal", "internal_correlated"]))
    return c


PROP = Prop(
    id="C27",
    rule="Cases are random layouts turned into problems, the paper script's problem list as a whole, problems of that list by number (all in the "
         "thorough tier), and all stored surface code circuits; every case is non-trivial. Oracle: the facts read off the circuit (qubits, "
         "measurement counts, channel strengths, observables, shortest undetected error).",
    assumptions=["distance of stored circuits larger than 11 is only checked in the thorough tier"],
    subs=[Sub("layouts", check_layout, lays(), quick=200, thorough=4000),
          Sub("list", check_list, explicit=lambda t: [0]),
          Sub("problems", check_problem, explicit=pick),
          Sub("order", check_order, st.fixed_dictionaries(dict(
              i=st.integers(0, 10 ** 4), field=st.sampled_from(["noise", "circuit_style", "preserved_observable", "decoder"]),
              picks=st.lists(st.integers(0, 50), min_size=1, max_size=3))), quick=100, thorough=2000),
          Sub("stored circuits", check_stored, explicit=lambda t: [dict(kind=k, obs=o, d=d, p=p) for p in ([0.001] if t == "quick" else [0.001, 0.03])
                                                                  for k in ("SD6", "SI1000") for o in "XZ" for d in (3, 7, 11, 15, 19)]),
          Sub("rejected", check_bad, explicit=lambda t: [dict(kind=k) for k in ("EM3", "PC3", "sd6")])],
)
