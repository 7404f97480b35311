import numpy as np

from ..core import Prop, Sub, require, sut
from .. import conf, circ, refmodel


def check(case, ctx):
    conf.classes(case, ctx)
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    ideal = circ.strip_noise(c)
    p = circ.parse(ideal)
    labels = circ.schedule_labels(p, g, n)
    want_qubits = set(g.data)
    if case["style"] not in ("EM3", "EM3_v2"):
        want_qubits |= set(g.edge_color)
    require(set(p.coords.values()) == want_qubits and len(p.coords) == len(want_qubits),
            "qubit coordinates are not the qubits of the lattice")
    # Joint distribution of edge values and data values against the ideal schedule.
    ref, ref_labels, _ = refmodel.schedule_circuit(g, n, case["obs"])
    m = len(labels)
    shots = m + 64
    got = ideal.compile_sampler(seed=11).sample(shots)
    want = ref.compile_sampler(seed=12).sample(shots)
    pos = {l: i for i, l in enumerate(labels)}
    if case["style"] == "PC3":
        cols = [got[:, pos[l]] ^ (got[:, pos[("e", l[1] - 3, l[2])]] if l[0] == "e" and l[1] >= 3 else False)
                for l in ref_labels]
        got = np.stack(cols, axis=1)
    else:
        got = got[:, [pos[l] for l in ref_labels]]
    # Linear part of each affine outcome space, and the combined one including the offset between them.
    a = got ^ got[:1]
    b = want ^ want[:1]
    ra, rb = circ.bits_rank(a), circ.bits_rank(b)
    rab = circ.bits_rank(np.concatenate([a, b, (got[:1] ^ want[:1])]))
    require(ra == rb == rab,
            "outcome distribution differs from the honeycomb schedule (ranks: circuit %d, schedule %d, joint %d)",
            ra, rb, rab)
    ctx.mark(n >= 2)
    ctx.label("noisy" if case["noise"] else "noiseless")


def records(g, n):
    per = [len(g.edges[c]) for c in range(3)]
    return sum(per[c] * ((n - c + 2) // 3) for c in range(3)) + len(g.data)


def check_long(case, ctx):
    """Very many sub-rounds: the unrolled records are still exactly the schedule (their number alone beyond 5000)."""
    conf.classes(case, ctx)
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    require(c.num_measurements == records(g, n), "%d measurements, the schedule has %d", c.num_measurements, records(g, n))
    if n <= 5000:
        circ.schedule_labels(circ.parse(circ.strip_noise(c)), g, n)
        ctx.label("unrolled")
    ctx.mark()


def explicit(tier):
    q = tier == "quick"
    yield from conf.grid([(2, 6)], range(1, 49 if q else 100))
    yield from conf.grid([(4, 6), (2, 12)], range(1, 19))
    yield from conf.grid([(2, 6), (4, 6)], (1, 2, 3, 4, 6, 9, 12, 14), noises=(0.01,))
    yield from conf.grid([(6, 6), (4, 12), (2, 18), (8, 6)], (1, 2, 3, 4, 5, 6, 12, 13))
    yield from conf.grid([(8, 12), (12, 6), (2, 30), (6, 18)], (3, 5, 7))
    yield from conf.grid([(60, 6), (2, 90), (20, 30)], (3, 5))


PROP = Prop(
    id="C02",
    rule="Cases are configurations; non-trivial when at least two sub-rounds are measured. Record labels are compared "
         "exactly; the joint outcome distribution is an affine space over GF(2), recovered from (records + 64) sampled "
         "shots of the circuit and of an independently written parity-measurement schedule and compared by rank.",
    assumptions=["stim samples the affine outcome space uniformly (a proper subspace is mistaken for it with "
                 "probability 2^-64)"],
    subs=[Sub("schedule", check, conf.configs(max_vol=2400, max_n=90, max_tw=12, max_th=5, noises=(0, 0, 0.01)),
              quick=160, thorough=3000, explicit=explicit),
          Sub("long runs", check_long, conf.long_runs(10 ** 9) | conf.long_runs(5000, sizes=((2, 6),)), quick=120, thorough=3000)],
)
