from ..core import Prop, Sub, require, sut
from .. import conf, circ, refmodel


def check(case, ctx):
    conf.classes(case, ctx)
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    p = circ.parse(circ.strip_noise(c))
    labels = circ.schedule_labels(p, g, n)
    idx = 0 if case["obs"] == "V" else 1
    used = {k: v for k, v in p.observables.items() if v}
    require(set(used) == {idx} and c.num_observables == idx + 1,
            "observable indices with records: %r (num_observables=%d), expected only %d",
            sorted(used), c.num_observables, idx)
    got = frozenset(labels[i] for i in used[idx])
    want = circ.from_values(refmodel.expected_observable(g, n, case["obs"]), case["style"] == "PC3")
    require(got == want, "observable records differ: missing %r, unexpected %r",
            sorted(map(str, want - got))[:4], sorted(map(str, got - want))[:4])
    ctx.mark(n >= 2)
    ctx.label("noisy" if case["noise"] else "noiseless")


def explicit(tier):
    q = tier == "quick"
    yield from conf.grid([(2, 6)], range(1, 81 if q else 240))
    yield from conf.grid([(4, 6), (2, 12), (6, 6), (4, 12)], range(1, 27))
    yield from conf.grid([(2, 6), (4, 12)], range(1, 16), noises=(0.01,))
    yield from conf.grid([(8, 12), (14, 6), (2, 30), (6, 18), (12, 12), (20, 6), (4, 36), (16, 24)],
                         (1, 2, 3, 4, 6, 8, 12, 13, 14, 22, 31))
    yield from conf.grid([(60, 6), (2, 120), (80, 12), (20, 30)], (4, 6))
    yield from conf.grid([(2, 6)], (300, 601, 602, 999, 2000))


PROP = Prop(
    id="C04",
    rule="Cases are configurations; non-trivial when at least two sub-rounds contribute. The XOR of all records of "
         "the observable, labelled by edge and sub-round, must equal the reference path operator's history exactly.",
    subs=[Sub("observable", check, conf.configs(max_vol=9000, max_n=150, max_tw=14, noises=(0, 0, 0.01)),
              quick=500, thorough=6000, explicit=explicit),
          Sub("long", check, conf.long_runs(8000, sizes=((2, 6),)), quick=16, thorough=600)],
)
