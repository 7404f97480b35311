import math

import numpy as np
from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, rejects
from .. import demgen as dg


def build(case):
    """Each detector and observable is one qubit; every error flips the qubits of its symptoms and observables."""
    nd, no = case["nd"], case["no"]
    c = stim.Circuit()
    for p, ds, os_ in case["errors"]:
        ts = [f"X{d}" for d in ds] + [f"X{nd + o}" for o in os_]
        if ts:
            c.append_from_stim_program_text(f"CORRELATED_ERROR({p!r}) " + " ".join(ts))
    n = nd + no
    if n:
        c.append_from_stim_program_text("M " + " ".join(map(str, range(n))))
    for d in range(nd):
        c.append_from_stim_program_text(f"DETECTOR({d}, 0, 0) rec[{d - n}]")
    for o in range(no):
        c.append_from_stim_program_text(f"OBSERVABLE_INCLUDE({o}) rec[{nd + o - n}]")
    return c


def edges_of(circuit):
    dem = circuit.detector_error_model(decompose_errors=True)
    errs = []
    for ins in dem.flattened():
        if ins.type != "error":
            continue
        p, ds, fs = ins.args_copy()[0], [], []
        for t in ins.targets_copy() + [None]:
            if t is None or t.is_separator():
                errs.append((p, ds, fs))
                ds, fs = [], []
            elif t.is_relative_detector_id():
                ds.append(t.val)
            else:
                fs.append(t.val)
    return dg.merge(errs, circuit.num_detectors)


class Oracle:
    def __init__(self, circuit):
        self.edges = edges_of(circuit)
        self.nd = circuit.num_detectors
        self.sym, self.frame, self.weight, _ = dg.explanations(self.edges, self.nd, self.nd, [])
        w = [abs(math.log((1 - p) / p)) for p, _ in self.edges.values()] or [1.0]
        self.tol = 1e-5 * (1 + max(w)) * (1 + len(w))

    def consistent(self):
        return sorted(set(self.sym.tolist()))

    def allowed(self, syn):
        m = self.sym == syn
        w, f = self.weight[m], self.frame[m]
        best = w.min()
        return {int(v) for v in f[w <= best + self.tol]}, len(w)


def bits(v, n):
    return np.array([(v >> k) & 1 for k in range(n)], dtype=np.bool_)


def check_model(case, ctx):
    from decoding import decode_using_pymatching
    circuit = build(case)
    try:
        oracle = Oracle(circuit)
    except ValueError:
        ctx.label("not decomposable")
        return
    nd, no = case["nd"], case["no"]
    syns = oracle.consistent()
    rng = np.random.default_rng(case["seed"])
    pick = [0] + [syns[int(i)] for i in rng.integers(0, len(syns), size=12)]
    order = [pick[i] for i in rng.permutation(len(pick))]
    batch = np.array([bits(s, nd) for s in order], dtype=np.bool_).reshape(len(order), nd)
    before = batch.copy()
    with sut("decoding"):
        pred = decode_using_pymatching(circuit=circuit, det_samples=batch, use_correlated_decoding=False)
    require(tuple(pred.shape) == (len(order), no), "predictions have shape %r, expected %r", tuple(pred.shape), (len(order), no))
    require((batch == before).all(), "the samples were modified")
    ambiguous = unique = 0
    for s, row in zip(order, pred):
        got = sum(1 << k for k in range(no) if row[k])
        ok, n_expl = oracle.allowed(s)
        require(got in ok, "symptoms %s of %d detectors predicted flips %s, minimum-weight explanations give %s",
                bin(s), nd, bin(got), sorted(map(bin, ok)))
        if len(ok) == 1 and n_expl > 1:
            unique += 1
        if s == 0 and all(p <= 0.5 for p, _, _ in case["errors"]) and len(ok) == 1:
            require(got == 0, "no symptoms but flips %s", bin(got))
    ctx.mark(unique > 0)
    # one shot at a time, and in the opposite order
    k = case["seed"] % len(order)
    with sut("decoding one shot"):
        one = decode_using_pymatching(circuit=circuit, det_samples=batch[k:k + 1], use_correlated_decoding=False)
        rev = decode_using_pymatching(circuit=circuit, det_samples=batch[::-1], use_correlated_decoding=False)
        none = decode_using_pymatching(circuit=circuit, det_samples=batch[:0], use_correlated_decoding=False)
    ok, _ = oracle.allowed(order[k])
    require(sum(1 << i for i in range(no) if one[0][i]) in ok, "a single shot decodes differently")
    if len(ok) == 1:
        require((one[0] == pred[k]).all(), "prediction depends on the other shots")
    require(none.shape == (0, no), "empty batch gives shape %r", none.shape)
    for i, s in enumerate(order[::-1]):
        require(sum(1 << j for j in range(no) if rev[i][j]) in oracle.allowed(s)[0], "reversed batch decodes differently")
    reach = {d for k_ in oracle.edges for d in k_ if d != nd}
    ctx.label("unreachable detector" if len(reach) < nd else "all detectors reachable",
              "silent observable" if no and len({o for _, f in oracle.edges.values() for o in f}) < no else "all observables flippable",
              "no errors" if not oracle.edges else ("boundary" if any(nd in k_ for k_ in oracle.edges) else "closed"),
              f"{no} obs", "negative weights" if any(p > 0.5 for p, _ in oracle.edges.values()) else "positive weights",
              "disconnected" if len(oracle.edges) and components(oracle.edges) > 1 else "connected")
    ctx.label(*(["unique minimum with alternatives"] if unique else []))


def components(edges):
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] != x:
            x = par[x]
        return x
    for k in edges:
        a, b = sorted(k)
        par[find(a)] = find(b)
    return len({find(x) for x in par})


@st.composite
def models(draw):
    nd = draw(st.sampled_from([4, 5, 6, 3, 2, 7, 1, 0, 5, 6]))
    no = draw(st.sampled_from([1, 2, 3, 1, 2, 0]))
    probs = st.sampled_from([0.001, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.45]) | st.floats(1e-7, 0.49)
    if draw(st.integers(0, 9)) == 0:
        probs = probs | st.floats(0.51, 0.99)
    errors = []
    n = draw(st.integers(4, 11) | st.integers(0, 11))
    base = []
    for _ in range(n):
        k = draw(st.sampled_from([1, 2, 2, 2, 0])) if nd >= 2 else draw(st.integers(0, nd))
        ds = draw(st.lists(st.integers(0, nd - 1), min_size=k, max_size=k, unique=True)) if k else []
        os_ = draw(st.lists(st.integers(0, no - 1), max_size=no, unique=True)) if no else []
        errors.append([draw(probs), sorted(ds), sorted(os_)])
        if ds:
            base.append((ds, os_))
    # faults that need decomposition
    for _ in range(draw(st.integers(0, 2))):
        if len(base) >= 2:
            (a, f), (b, g) = draw(st.sampled_from(base)), draw(st.sampled_from(base))
            if not set(a) & set(b):
                errors.append([draw(probs), sorted(set(a) ^ set(b)), sorted(set(f) ^ set(g))])
    return dict(nd=nd, no=no, errors=errors, seed=draw(st.integers(0, 10 ** 6)))


def check_surface(case, ctx):
    """Chains: repetition-style lines with asymmetric weights where the best matching is known in closed form."""
    from decoding import decode_using_pymatching
    n, ps, obs_at = case["n"], case["ps"], case["at"]
    circuit = build(dict(nd=n, no=1, errors=[
        [ps[i], [d for d in (i - 1, i) if 0 <= d < n], [0] if i == obs_at else []] for i in range(n + 1)]))
    w = [math.log((1 - p) / p) for p in ps]
    if any(abs(a) < 1e-9 for a in w):
        return
    rng = np.random.default_rng(case["seed"])
    batch = rng.random((24, n)) < rng.choice([0.1, 0.3, 0.5])
    with sut("decoding"):
        pred = decode_using_pymatching(circuit=circuit, det_samples=batch, use_correlated_decoding=False)
    for s, row in zip(batch, pred):
        # the two explanations of any symptom set on a line: edge parity is fixed up to a global flip
        x = [False]
        for d in range(n):
            x.append(x[-1] ^ bool(s[d]))
        costs = [sum(wi for wi, b in zip(w, x) if b ^ bool(g)) for g in (0, 1)]
        if abs(costs[0] - costs[1]) < 1e-4 * (1 + max(map(abs, w))) * n:
            continue
        g = int(costs[1] < costs[0])
        want = x[obs_at] ^ bool(g)
        require(bool(row[0]) == want, "line of %d: symptoms %s predicted %r, expected %r", n, np.flatnonzero(s).tolist(), bool(row[0]), want)
        ctx.mark()
    ctx.label("long" if n > 40 else "short")


@st.composite
def lines(draw):
    n = draw(st.integers(2, 12) | st.integers(30, 90) | st.integers(90, 300))
    ps = draw(st.lists(st.floats(0.001, 0.4), min_size=n + 1, max_size=n + 1))
    return dict(n=n, ps=ps, at=draw(st.integers(0, n)), seed=draw(st.integers(0, 10 ** 6)))


def check_large(case, ctx):
    """Lines with thousands of detectors, and batches of thousands of shots: each shot gets its own prediction."""
    from decoding import decode_using_pymatching
    n, shots = case["n"], case["shots"]
    rng = np.random.default_rng(case["seed"])
    ps = rng.uniform(0.01, 0.4, size=n + 1)
    at = rng.choice(n + 1, size=min(n + 1, 3), replace=False)
    circuit = build(dict(nd=n, no=len(at), errors=[
        [float(ps[i]), [d for d in (i - 1, i) if 0 <= d < n], [int(o) for o in np.flatnonzero(at == i)]] for i in range(n + 1)]))
    w = np.log((1 - ps) / ps)
    batch = rng.random((shots, n)) < rng.choice([0.02, 0.2, 0.5])
    if shots <= 20:
        # shots that differ from an earlier one in a single detector anywhere, in particular at the ends
        for i in range(1, shots):
            batch[i] = batch[int(rng.integers(0, i))]
            k = [0, n - 1, int(rng.integers(0, n))][int(rng.integers(0, 3))]
            batch[i, k] ^= True
    with sut("decoding"):
        pred = np.asarray(decode_using_pymatching(circuit=circuit, det_samples=batch, use_correlated_decoding=False)).astype(bool)
    require(pred.shape == (shots, len(at)), "predictions have shape %r", pred.shape)
    x = np.zeros((shots, n + 1), dtype=bool)
    x[:, 1:] = np.cumsum(batch, axis=1) % 2 == 1
    cost = x @ w
    other = w.sum() - cost
    clear = abs(cost - other) > 1e-4 * (1 + w.max()) * n
    want = x[:, at] ^ (other < cost)[:, None]
    bad = np.flatnonzero(clear & (want != pred).any(axis=1))
    require(not len(bad), "shot %s of %d on a line of %d detectors: predicted %s, expected %s", bad[:1], shots, n, pred[bad[:1]].tolist(), want[bad[:1]].tolist())
    ctx.mark(bool(clear.any()))
    ctx.label("many detectors" if n > 1000 else "many shots")


larges = st.one_of(st.fixed_dictionaries(dict(n=st.integers(1000, 4200), shots=st.integers(2, 12), seed=st.integers(0, 10 ** 6))),
                   st.fixed_dictionaries(dict(n=st.integers(1, 12), shots=st.sampled_from([1000, 4097, 33000, 66000]), seed=st.integers(0, 10 ** 6))))


def check_correlated(case, ctx):
    from decoding import decode_using_pymatching
    circuit = build(case)
    rejects(lambda: decode_using_pymatching(circuit=circuit, det_samples=np.zeros((1, case["nd"]), dtype=np.bool_),
                                            use_correlated_decoding=True), "correlated decoding with pymatching")
    if case["nd"] + 1:
        rejects(lambda: decode_using_pymatching(circuit=circuit, det_samples=np.zeros((1, case["nd"] + 1), dtype=np.bool_),
                                                use_correlated_decoding=False), "samples of the wrong width")
    ctx.mark()


PROP = Prop(
    id="C15",
    rule="Cases are random matchable error models (up to 7 detectors, 3 observables, 13 faults incl. faults needing "
         "decomposition, silent observables, unreachable detectors, several connected components, weights of both signs) "
         "with random consistent symptom sets, and long weighted lines (up to 4200 detectors, batches of up to 66000 shots); non-trivial when some decoded symptom set has "
         "several explanations but a unique minimum. Oracle: enumeration of all edge subsets / closed form on lines.",
    assumptions=["symptom sets some set of faults can cause", "ties may be broken either way",
                 "error probabilities in (0, 1), weights compared to 1e-5 relative (the matcher uses integer weights)"],
    subs=[Sub("random", check_model, models(), quick=16000, thorough=300000),
          Sub("lines", check_surface, lines(), quick=3000, thorough=40000),
          Sub("large", check_large, larges, quick=40, thorough=800),
          Sub("rejected", check_correlated, models(), quick=60, thorough=1000)],
)
