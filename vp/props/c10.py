import itertools
import math

import numpy as np
import stim
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, Violation

# Index of a combination: 2 bits per qubit Pauli (x, z) and one flip bit -> 5 bits, composition is XOR.
PB = {"I": 0, "X": 1, "Z": 2, "Y": 3}


def fwht(v):
    v = np.array(v, dtype=np.float64)
    h = 1
    while h < len(v):
        v = v.reshape(-1, 2, h)
        v = np.stack([v[:, 0] + v[:, 1], v[:, 0] - v[:, 1]], axis=1).reshape(-1)
        h *= 2
    return v


def channel_distribution(c: stim.Circuit, a: int, b: int, anc: int):
    """Exact distribution over the 32 combinations of the noise applied between coupling and measurement."""
    dist = np.zeros(32)
    dist[0] = 1

    def bits(p, q):
        if q == a:
            return PB[p] << 3
        if q == b:
            return PB[p] << 1
        if q == anc:
            return 1 if p in "XY" else 0
        raise Violation(f"noise on qubit {q} which is not part of the measurement")

    def mix(options):
        nonlocal dist
        total = sum(p for p, _ in options)
        new = dist * (1 - total)
        for p, k in options:
            new = new + p * dist[np.arange(32) ^ k]
        dist = new

    measured = coupled = 0
    for op in c:
        ts, args = op.targets_copy(), op.gate_args_copy()
        if op.name in ("CX", "XCX", "YCX", "CZ", "XCZ", "YCZ", "CY", "XCY", "YCY"):
            coupled += len(ts) // 2
        elif op.name in ("R", "RX", "H", "TICK"):
            pass
        elif op.name in ("CORRELATED_ERROR", "E"):
            require(coupled == 2 and not measured, "noise is not between coupling and measurement")
            k = 0
            for t in ts:
                k ^= bits("X" if t.is_x_target else "Y" if t.is_y_target else "Z", t.value)
            mix([(args[0], k)])
        elif op.name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            for t in ts:
                mix([(args[0], bits(op.name[0], t.value))])
        elif op.name == "DEPOLARIZE1":
            for t in ts:
                mix([(args[0] / 3, bits(p, t.value)) for p in "XYZ"])
        elif op.name == "DEPOLARIZE2":
            for t, u in zip(ts[::2], ts[1::2]):
                mix([(args[0] / 15, bits(p, t.value) ^ bits(q, u.value)) for p in "IXYZ" for q in "IXYZ" if p + q != "II"])
        elif op.name in ("M", "MX", "MR"):
            measured += 1
            if args:
                mix([(args[0], 1)])
        else:
            raise Violation(f"unexpected operation {op}")
    require(measured == 1, "%d measurements", measured)
    return dist


def check_channel(case, ctx):
    from noise import parity_measurement_with_correlated_measurement_noise as f
    P, Q, a, b, anc, p = case["P"], case["Q"], case["a"], case["b"], case["anc"], case["p"]
    T = {"X": stim.target_x, "Y": stim.target_y, "Z": stim.target_z}
    with sut("expanding the measurement"):
        c = f(t1=T[P](a, bool(case["inv"] & 1)), t2=T[Q](b, bool(case["inv"] & 2)), ancilla=anc, mix_probability=p)
    dist = channel_distribution(c, a, b, anc)
    want = np.full(32, p / 32)
    want[0] += 1 - p
    err = np.abs(dist - want).max()
    require(err <= 1e-12 + 1e-7 * p, "combination probabilities are off by %g (p=%g): worst %r", err, p,
            int(np.abs(dist - want).argmax()))
    ideal = c.without_noise()
    require(ideal.num_measurements == 1, "%d measurement records", ideal.num_measurements)
    # Relabel to 0,1,2 so the flow strings stay small.
    m = {a: 0, b: 1, anc: 2}
    small = stim.Circuit()
    for op in ideal:
        small.append(op.name, [stim.target_inv(m[t.value]) if t.is_inverted_result_target else m[t.value]
                               for t in op.targets_copy()], op.gate_args_copy())
    other = {"X": "Z", "Y": "X", "Z": "Y"}
    sign = "-" if case["inv"] in (1, 2) else ""
    flows = [f"{sign}{P}0*{Q}1 -> rec[0]", f"{P}0 -> {P}0", f"{Q}1 -> {Q}1", f"{other[P]}0*{other[Q]}1 -> {other[P]}0*{other[Q]}1"]
    for fl in flows:
        require(small.has_flow(stim.Flow(fl)), "the ideal measurement is not of %s*%s: flow %s fails", P, Q, fl)
    ctx.mark(p > 0)
    ctx.label(P + Q, "p=1" if p == 1 else "p<1e-6" if p < 1e-6 else "p")


def check_conversion(case, ctx):
    from noise import mix_probability_to_independent_component_probability as f
    p, n = case["p"], case["n"]
    with sut("converting"):
        q = float(f(p, n))
    require(0 <= q <= 0.5, "component probability %r outside [0, 1/2]", q)
    if n <= 10:
        # All 2^n - 1 non-identity components applied independently: exact distribution by Walsh-Hadamard.
        N = 2 ** n
        # The character chi is negated by exactly half (N/2) of the components for chi != 0.
        spec = np.full(N, (1 - 2 * q) ** (N // 2))
        spec[0] = 1
        if n <= 6:   # recompute the spectrum by actually convolving
            dist = np.zeros(N)
            dist[0] = 1
            for k in range(1, N):
                dist = dist * (1 - q) + q * dist[np.arange(N) ^ k]
        else:
            dist = fwht(spec) / N
        want = np.full(N, p / N)
        want[0] += 1 - p
        err = np.abs(dist - want).max()
        require(err <= 1e-13 * N + 1e-7 * p, "mixing %r over %d bits gives probabilities off by %g", p, n, err)
    else:
        lhs = math.exp(2 ** (n - 1) * math.log1p(-2 * q)) if q < 0.5 else 0.0
        require(abs(lhs - (1 - p)) <= 2.0 ** n * 1e-15 + 1e-9, "mixing %r over %d bits: survival %r, expected %r", p, n, lhs, 1 - p)
    ctx.mark(p > 0)
    ctx.label(f"n={n}" if n <= 6 else "n>6")


probs = st.floats(0, 1) | st.sampled_from([0.0, 1.0, 0.5, 1e-3, 1e-6, 1e-9, 0.999999]) | st.floats(0, 1e-4)


@st.composite
def chan(draw):
    a, b, anc = draw(st.lists(st.integers(0, 300) | st.integers(0, 100000), min_size=3, max_size=3, unique=True))
    return dict(P=draw(st.sampled_from("XYZ")), Q=draw(st.sampled_from("XYZ")), a=a, b=b, anc=anc, p=draw(probs),
                inv=draw(st.sampled_from([0, 0, 0, 1, 2, 3])))


def ex(tier):
    for P, Q in itertools.product("XYZ", repeat=2):
        for p in (0.0, 1e-6, 0.001, 0.01, 0.3, 0.9, 1.0):
            for a, b, anc in ((0, 1, 2), (5, 3, 9), (2, 7, 0)):
                for inv in range(4):
                    yield dict(P=P, Q=Q, a=a, b=b, anc=anc, p=p, inv=inv)


PROP = Prop(
    id="C10",
    rule="Cases are (bases, qubit labels, mixing probability) and (probability, bit count); non-trivial when the "
         "probability is positive. The exact distribution over all 32 combinations is computed by convolution of the "
         "emitted noise instructions and compared with uniform mixing; the ideal measurement by its Pauli flows.",
    subs=[Sub("channel", check_channel, chan(), quick=3000, thorough=60000, explicit=ex),
          Sub("conversion", check_conversion, st.builds(lambda p, n: dict(p=p, n=n), probs, st.integers(1, 14)),
              quick=3000, thorough=60000,
              explicit=lambda t: [dict(p=p, n=n) for n in range(1, 21) for p in (0.0, 1e-6, 0.001, 0.1, 0.5, 0.9, 1.0)])],
)
