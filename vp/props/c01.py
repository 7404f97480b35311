from ..core import Prop, Sub, require, sut
from .. import conf
from ..circ import strip_noise


def _determinism(circuit, what):
    try:
        circuit.detector_error_model()
    except ValueError as e:
        require(False, "%s: a detector or observable is not deterministic: %s", what, str(e)[:300])


def check(case, ctx):
    conf.classes(case, ctx)
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    ideal = strip_noise(c)
    _determinism(ideal, "ideal circuit")
    require(ideal.num_detectors > 0 or case["n"] < 3, "no detectors at all")
    require(ideal.num_observables >= 1, "no observable")
    if ideal.num_measurements <= 20000:
        s = ideal.compile_detector_sampler(seed=5).sample(32, append_observables=True)
        require(not s.any(), "a detector or observable fired in a noiseless run")
    if case["noise"]:
        with sut("extracting the decomposed error model"):
            c.detector_error_model(decompose_errors=True, flatten_loops=False)
        ctx.label("noisy")
    ctx.mark(ideal.num_detectors > 0)


def explicit(tier):
    yield from conf.grid([(2, 6)], range(1, 61 if tier == "quick" else 200))
    yield from conf.grid([(2, 6), (4, 6), (2, 12)], range(1, 16), noises=(0.001,))
    yield from conf.grid([(4, 6), (2, 12), (6, 6), (4, 12), (2, 18)], list(range(1, 20)))
    yield from conf.grid([(8, 12), (14, 6), (2, 30), (10, 18), (22, 6), (12, 36)], (1, 2, 3, 7, 10, 13, 21, 32))
    yield from conf.grid([(60, 6), (2, 120), (80, 12), (20, 30)], (3, 8))
    yield from conf.grid([(2, 6), (4, 6)], (1000, 1001, 1002, 99999, 100000, 1000001))


PROP = Prop(
    id="C01",
    rule="Cases are (width, height, sub-rounds, style, observable, noise); non-trivial when the circuit has detectors. "
         "Determinism is decided exactly by stim's gauge analysis over all measurement outcomes, plus 32 sampled runs.",
    assumptions=["stim's error analysis rejects every non-deterministic detector or observable"],
    subs=[Sub("deterministic", check, conf.configs(max_vol=9000, max_n=140, max_tw=14, noises=(0, 0, 0.002, 0.1)),
              quick=500, thorough=6000, explicit=explicit),
          Sub("long", check, conf.long_runs(10 ** 6), quick=60, thorough=2000)],
)
