from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut
from .. import conf, noisegen as ng
from .c08 import NAMES, GATES, ALL, prob, large_cases


def compare(c, noisy, what, helper_allowed):
    qubits = set(range(c.num_qubits))
    want = ng.ideal_stream(c, qubits)
    got = ng.ideal_stream(noisy, qubits)
    if want != got:
        for i, (a, b) in enumerate(zip(want + [None] * len(got), got + [None] * len(want))):
            if a != b:
                require(False, "%s: ideal operation #%d was %r, became %r", what, i, a, b)
    require(noisy.num_measurements == c.num_measurements, "%s: measurement count changed", what)
    require(noisy.num_detectors == c.num_detectors, "%s: detector count changed", what)
    require(noisy.num_observables == c.num_observables, "%s: observable count changed", what)
    require(noisy.num_ticks == c.num_ticks, "%s: tick count changed", what)
    if not helper_allowed:
        require(noisy.num_qubits == c.num_qubits, "%s: qubit count changed", what)


def flat_eq(a, b):
    return ng.ideal_stream(a, set(range(10**9))) == ng.ideal_stream(b, set(range(10**9)))


def check(case, ctx):
    from noise import NoiseModel
    name, p = case["model"], case["p"]
    c, _ = ng.to_stim(case["prog"])
    before = str(c)
    qs = case.get("qs")
    with sut("adding noise"):
        nm = getattr(NoiseModel, name)(p)
        noisy = nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs))
    require(str(c) == before, "the input circuit was modified")
    compare(c, noisy, name, (name == "EM3_v2" and p > 0) or qs is not None)
    if p == 0:
        require(noisy == c or str(ng.ideal_stream(noisy, set())) == str(ng.ideal_stream(c, set())),
                "zero strength changed the circuit")
        require(noisy.without_noise() == noisy, "zero strength added noise")
    ctx.mark(c.num_measurements > 0 or p == 0)
    ctx.label(name, "zero strength" if p == 0 else "noisy", "loop" if "REPEAT" in before else "straight line",
              "idle subset" if qs is not None else "all idle")


def check_large(case, ctx):
    check(dict(case, prog=ng.scaled(case["prog"], *case["scale"])), ctx)


def check_helper(case, ctx):
    """Loop bodies touching fewer qubits than the circuit, parity measurements everywhere: exact outcome relations
    of the ideal part are unchanged (decided by the Pauli flows of the circuit)."""
    from noise import NoiseModel
    c, m = ng.to_stim(case["prog"])
    with sut("adding noise"):
        noisy = NoiseModel.EM3_v2(case["p"]).noisy_circuit(c) if case.get("qs") is None else \
            NoiseModel.EM3_v2(case["p"]).noisy_circuit(c, qs=set(case["qs"]))
    used = {t.value for op in noisy.flattened() if op.name == "CORRELATED_ERROR" for t in op.targets_copy()}
    helpers = {q for q in used if q >= c.num_qubits}
    require(used <= set(range(c.num_qubits)) | helpers, "noise outside the circuit")
    pairs = 0
    ideal = noisy.without_noise().flattened()
    flat = c.flattened()
    if flat.num_measurements <= 40:
        flows = flat.flow_generators()
        keep = [f for f in flows]
        require(ideal.has_all_flows(keep), "the noisy circuit's ideal part no longer satisfies the circuit's "
                                           "measurement relations")
        pairs = len(keep)
        ctx.label("flows compared")
    compare(c, noisy, "EM3_v2", True)
    ctx.mark(c.num_measurements > 0 and pairs > 0)


def check_honeycomb(case, ctx):
    conf.classes(case, ctx)
    with sut("generating"):
        c0 = conf.layout(case, noise=0).make_circuit()
        c1 = conf.layout(case).make_circuit()
    compare(c0, c1, case["style"], case["style"] == "EM3_v2")
    require(c0.without_noise() == c0, "noise present at zero strength")
    ctx.mark()


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    return dict(model=name, p=draw(prob), prog=draw(ng.circuits(GATES[name])),
                qs=draw(st.none() | st.none() | st.lists(st.integers(0, 8), max_size=6, unique=True)))


@st.composite
def helper_cases(draw):
    prog = draw(ng.circuits(["MPP", "MPP", "MPP", "R", "M", "H", "C_XYZ", "CZ"], max_q=6))

    def cap(pr):
        return [[it[0], min(it[1], 3), cap(it[2])] if it[0] == "r" else it for it in pr]
    return dict(p=draw(st.sampled_from([0.001, 0.1, 0.9])), prog=cap(prog),
                qs=draw(st.none() | st.lists(st.integers(0, 6), max_size=4, unique=True)))


PROP = Prop(
    id="C09",
    rule="Cases are (model, strength, circuit, idling qubits) and honeycomb configurations; non-trivial when the "
         "circuit measures something or the strength is zero. The ideal operation stream, with loops, is compared one "
         "operation at a time; helper-qubit expansions are also checked by the circuit's Pauli flows.",
    assumptions=["circuits use each qubit at most once between ticks"],
    subs=[Sub("ideal-part", check, cases(), quick=4000, thorough=100000),
          Sub("large", check_large, large_cases(), quick=150, thorough=3000),
          Sub("helper", check_helper, helper_cases(), quick=1500, thorough=30000),
          Sub("honeycomb", check_honeycomb, conf.configs(max_vol=5000, noises=(0.001, 0.02, 0.19)), quick=200,
              thorough=4000, explicit=lambda t: conf.grid([(2, 6), (4, 12)], (1, 2, 3, 7, 12, 24), noises=(0.01,)))],
)
