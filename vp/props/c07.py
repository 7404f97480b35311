from ..core import Prop, Sub, require, sut
from .. import conf, circ

# Gates each style may use ("Z controlled" X is CX); basis changes for start and readout are shared.
GATES = {
    "SD6": {"R", "M", "CX", "C_ZYX", "C_XYZ", "H", "H_YZ"},
    "PC3": {"R", "M", "CX", "XCX", "YCX", "H", "H_YZ"},
    "EM3": {"R", "M", "MPP", "H", "H_YZ"},
    "EM3_v2": {"R", "M", "MPP", "H", "H_YZ"},
    "SI1000": {"R", "M", "CZ", "C_ZYX", "H", "H_YZ"},
}
PER_CYCLE = {"SD6": 6, "PC3": 3, "EM3": 3, "EM3_v2": 3, "SI1000": 10}


def check(case, ctx):
    conf.classes(case, ctx)
    g = conf.g_of(case)
    with sut("generating the circuit"):
        lay = conf.layout(case)
        c = lay.make_circuit()
        reported = (lay.num_qubits, lay.as_decoder_problem_desc("pymatching").num_qubits)
    p = circ.parse(circ.strip_noise(c))
    want = case["w"] * case["h"] if case["style"] in ("EM3", "EM3_v2") else case["w"] * case["h"] * 5 // 2
    require(len(p.coords) == want and len(set(p.coords.values())) == want,
            "%d qubits with %d distinct coordinates, expected %d", len(p.coords), len(set(p.coords.values())), want)
    require(reported == (want, want), "reported qubit count %r, expected %d", reported, want)
    helper_ok = case["style"] == "EM3_v2" and case["noise"]
    allowed = GATES[case["style"]] | ({"CX", "XCX", "YCX"} if helper_ok else set())
    used = set()
    for i, layer in enumerate(p.layers):
        busy = set()
        helpers = set()
        for name, qs in layer:
            require(name in allowed, "gate %s is not in the gate set of %s", name, case["style"])
            for q in qs:
                if helper_ok and q not in p.coords:
                    helpers.add(q)
                    continue
                require(q in p.coords, "layer %d acts on qubit %d which has no coordinates", i, q)
                require(q not in busy, "qubit %d is used twice in layer %d", q, i)
                busy.add(q)
                used.add(q)
        require(layer or i in (0, len(p.layers) - 1), "layer %d is empty", i)
    require(used == set(p.coords), "%d annotated qubits are never used", len(set(p.coords) - used))
    ctx.mark(len(p.layers) > 3)


def check_depth(case, ctx):
    conf.classes(case, ctx)
    n = case["n"]
    with sut("generating the circuits"):
        t0 = conf.layout(case).make_circuit().num_ticks
        t1 = conf.layout(dict(case, n=n + 6)).make_circuit().num_ticks
        small = conf.layout(dict(case, w=2, h=6)).make_circuit().num_ticks
    require(t1 - t0 == 2 * PER_CYCLE[case["style"]], "two more cycles take %d layers, expected %d",
            t1 - t0, 2 * PER_CYCLE[case["style"]])
    require(small == t0, "the number of layers depends on the layout size (%d, smallest layout %d)", t0, small)
    ctx.mark()


def explicit(tier):
    q = tier == "quick"
    yield from conf.grid([(2, 6)], range(1, 61 if q else 200))
    yield from conf.grid([(4, 6), (2, 12), (4, 12)], range(1, 20))
    yield from conf.grid([(2, 6), (4, 6)], (1, 2, 3, 6, 9, 14), noises=(0.01,))
    yield from conf.grid([(8, 12), (14, 6), (2, 30), (20, 12), (10, 36)], (1, 3, 7, 13))
    yield from conf.grid([(60, 6), (2, 120), (80, 12), (20, 30)], (3, 8))


PROP = Prop(
    id="C07",
    rule="Cases are configurations; non-trivial when the circuit has more than three layers. Every layer of the "
         "unrolled ideal circuit is inspected.",
    subs=[Sub("layers", check, conf.configs(max_vol=9000, max_n=150, max_tw=16, noises=(0, 0, 0.01)),
              quick=350, thorough=5000, explicit=explicit),
          Sub("long layers", check, conf.long_runs(5000, sizes=((2, 6),)), quick=24, thorough=600),
          Sub("long depth", check_depth, conf.long_runs(10 ** 8), quick=80, thorough=2000),
          Sub("depth", check_depth, conf.configs(max_vol=10**6, max_tw=6, max_th=3, max_n=3000, min_n=2),
              quick=250, thorough=4000,
              explicit=lambda tier: conf.grid([(2, 6), (4, 12)], range(2, 41)))],
)
