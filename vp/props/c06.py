import random

import numpy as np

from ..core import Prop, Sub, require, sut, Violation
from .. import conf


def bound(case):
    if case["style"] in ("EM3", "EM3_v2"):
        return case["h"] // 3 if case["obs"] == "H" else case["w"] // 2
    return case["h"] // 2 if case["obs"] == "H" else case["w"]


def _noisy(case):
    with sut("generating the circuit"):
        return conf.layout(case).make_circuit()


def check_distance(case, ctx):
    conf.classes(case, ctx)
    c = _noisy(case)
    with sut("extracting the decomposed error model"):
        dem = c.detector_error_model(decompose_errors=True)
    want = bound(case)
    try:
        d = len(dem.shortest_graphlike_error(ignore_ungraphlike_errors=True))
    except ValueError:
        raise Violation("no undetected logical error exists: the observable is not exposed to the noise at all")
    require(d >= want, "%d matchable faults flip the observable undetected, at least %d should be needed", d, want)
    ctx.label("tight" if d == want else "above the bound")
    ctx.mark(want >= 2)


def check_correct(case, ctx):
    conf.classes(case, ctx)
    from decoding import decode_using_pymatching
    c = _noisy(case)
    errs = []
    for i in c.detector_error_model().flattened():
        if i.type == "error" and i.args_copy()[0] > 0:
            ts = i.targets_copy()
            errs.append(([t.val for t in ts if t.is_relative_detector_id()],
                         [t.val for t in ts if t.is_logical_observable_id()]))
    total = len(errs)
    if total > 2500:
        random.Random(case.get("pick", 0)).shuffle(errs)
        errs = errs[:2500]
    det = np.zeros((len(errs) + 1, c.num_detectors), dtype=np.bool_)
    obs = np.zeros((len(errs) + 1, c.num_observables), dtype=np.bool_)
    for k, (ds, os_) in enumerate(errs):
        det[k, ds] = True
        obs[k, os_] = True
    with sut("decoding single faults"):
        pred = decode_using_pymatching(circuit=c, det_samples=det, use_correlated_decoding=False)
    require(pred.shape == obs.shape, "prediction shape %r", pred.shape)
    bad = np.nonzero(np.any(pred != obs, axis=1))[0]
    require(len(bad) == 0, "%d of %d single faults are not corrected, e.g. symptoms %r flipping %r",
            len(bad), len(errs), errs[bad[0]][0] if len(bad) and bad[0] < len(errs) else [],
            errs[bad[0]][1] if len(bad) and bad[0] < len(errs) else [])
    ctx.mark(len(errs) > 10)
    ctx.label("logical frame changing faults" if obs.any() else "no frame changes")


PAULI_INS = None


def check_inserted(case, ctx):
    """A Pauli inserted with certainty at a generated location of the ideal circuit."""
    import stim
    from decoding import sample_decode_count_correct
    conf.classes(case, ctx)
    noisy = _noisy(dict(case, noise=0.001))
    ideal = noisy.without_noise().flattened()
    spots = [i for i, op in enumerate(ideal) if op.name == "TICK"]
    qubits = sorted(q for q in ideal.get_final_qubit_coordinates())
    at = spots[case["where"] % len(spots)]
    q = qubits[case["qubit"] % len(qubits)]
    mod = ideal[:at]
    mod.append(case["pauli"] + "_ERROR", [q], 1.0)
    mod += ideal[at:]
    with sut("decoding a single inserted fault"):
        ok = sample_decode_count_correct(circuit=mod, model_circuit=noisy, num_shots=3, decoder="pymatching")
    require(ok == 3, "a single %s on qubit %d at tick %d is not corrected (%r of 3 shots correct)",
            case["pauli"], q, case["where"] % len(spots), ok)
    ctx.mark()


def _ins():
    from hypothesis import strategies as st
    return st.builds(lambda c, a, b, p: dict(c, where=a, qubit=b, pauli=p),
                     conf.configs(max_vol=2600, max_n=21, max_tw=6, max_th=3, min_tw=3, min_th=2, min_n=3),
                     st.integers(0, 400), st.integers(0, 4000), st.sampled_from("XYZ"))


def ex_d(tier):
    q = tier == "quick"
    yield from conf.grid([(2, 6), (4, 6), (4, 12), (6, 6)], range(1, 16 if q else 40), noises=(0.001,))
    yield from conf.grid([(6, 12), (8, 12), (12, 6), (4, 24)], (3, 6, 12, 13, 21), noises=(0.001,))
    yield from conf.grid([(8, 18), (14, 12)], (6, 12), noises=(0.001,))


def ex_c(tier):
    yield from conf.grid([(6, 12)], (1, 2, 3, 4, 5, 6, 9, 12, 13, 14), noises=(0.001, 0.01))
    yield from conf.grid([(8, 12), (10, 18), (6, 24)], (6, 9), noises=(0.003,))


PROP = Prop(
    id="C06",
    rule="Cases are noisy configurations and (sampled) fault locations; non-trivial when the bound is at least 2 or "
         "the fault set is larger than 10. Distances by exhaustive graph search over the circuit's own error model; "
         "correction by decoding every single fault of the error model (at most 2500 per case) and single inserted "
         "Paulis through the sampling entry point.",
    assumptions=["fault distance counts matchable components (at most two symptoms) of the decomposed error model"],
    subs=[Sub("distance", check_distance, conf.configs(max_vol=2600, max_n=36, max_tw=8, max_th=4, noises=(0.001,)),
              quick=100, thorough=2500, explicit=ex_d),
          Sub("single-faults", check_correct, conf.configs(max_vol=2600, max_n=24, max_tw=8, max_th=4, min_tw=3,
                                                           min_th=2, min_n=2, noises=(0.0005, 0.002, 0.01)),
              quick=60, thorough=1200, explicit=ex_c),
          Sub("inserted-pauli", check_inserted, _ins(), quick=120, thorough=3000)],
)
