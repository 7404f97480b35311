import stim

from ..core import Prop, Sub, require, sut, Violation
from .. import conf, circ, refmodel


def data_error_circuit(case):
    """The ideal schedule with data errors between sub-rounds, carrying the generated circuit's own detectors and
    observable (translated record by record)."""
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    p = circ.parse(circ.strip_noise(c))
    labels = circ.schedule_labels(p, g, n)
    cum = case["style"] == "PC3"
    ref, ref_labels, _ = refmodel.schedule_circuit(g, n, case["obs"], data_noise=0.001)
    pos = {l: i for i, l in enumerate(ref_labels)}
    m = len(ref_labels)
    for s, _ in p.detectors:
        vals = circ.to_values(frozenset(labels[i] for i in s), cum)
        ref.append("DETECTOR", [stim.target_rec(pos[l] - m) for l in sorted(vals, key=str)])
    for k, s in p.observables.items():
        vals = circ.to_values(frozenset(labels[i] for i in s), cum)
        ref.append("OBSERVABLE_INCLUDE", [stim.target_rec(pos[l] - m) for l in sorted(vals, key=str)], k)
    return ref


def expected(case):
    return 2 * case["h"] // 3 if case["obs"] == "H" else case["w"]


def check(case, ctx):
    conf.classes(case, ctx)
    ref = data_error_circuit(case)
    want = expected(case)
    try:
        dem = ref.detector_error_model()
    except ValueError as e:
        raise Violation(f"a detector or the observable is not deterministic: {str(e)[:200]}")
    try:
        d = len(dem.shortest_graphlike_error(ignore_ungraphlike_errors=True))
    except ValueError as e:
        raise Violation(f"no undetected logical error exists at all: {str(e)[:200]}")
    require(d == want, "shortest undetected logical data error has %d errors, expected %d", d, want)
    ctx.label(f"distance {want}")
    ctx.mark(want >= 2)
    if case.get("hyper"):
        found = ref.search_for_undetectable_logical_errors(
            dont_explore_detection_event_sets_with_size_above=6, dont_explore_edges_with_degree_above=6,
            dont_explore_edges_increasing_symptom_degree=False)
        require(len(found) == want, "%d data errors (including ones with more than two symptoms) flip the "
                "observable undetected, expected %d", len(found), want)
        ctx.label("all symptom counts searched")


def explicit(tier):
    for c in conf.grid([(2, 6), (4, 6), (2, 12), (6, 6), (4, 12)], (1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 20)):
        yield c
    for c in conf.grid([(6, 12), (8, 6), (8, 12), (6, 18), (12, 6), (2, 30), (10, 12), (4, 24)], (6, 14)):
        yield c
    for c in conf.grid([(2, 6), (4, 6)], (6, 9, 12, 15) if tier == "quick" else range(3, 31)):
        yield dict(c, hyper=True)
    for c in conf.grid([(6, 6), (2, 12)], (3, 6)):
        yield dict(c, hyper=True)


def check_reported(case, ctx):
    w, h = case["w"], case["h"]
    want = min(w, 2 * h // 3)
    with sut("reporting the distance"):
        lay = conf.layout(case)
        got = lay.code_distance_1qdep, lay.as_decoder_problem_desc("pymatching").code_distance
    require(got == (want, want), "reported code distance %r, expected %d", got, want)
    require(all(isinstance(v, int) for v in got), "code distance is not an integer")
    ctx.mark()
    ctx.label("limited by width" if w < 2 * h // 3 else "limited by height" if w > 2 * h // 3 else "balanced")


PROP = Prop(
    id="C05",
    rule="Cases are configurations; non-trivial when the expected distance is at least 2. The generated circuit's own "
         "detectors and observable are attached to an independent model of the schedule with depolarizing errors on "
         "every data qubit between sub-rounds, and the shortest undetected logical error is found by exhaustive "
         "graph search (on the smallest layouts also over errors with more than two symptoms).",
    assumptions=["stim's shortest_graphlike_error is exact for errors with at most two symptoms; errors with more "
                 "symptoms are only searched on the smallest layouts"],
    subs=[Sub("reported", check_reported, conf.configs(max_vol=10**9, max_tw=60, max_th=40, max_n=50),
              quick=400, thorough=5000,
              explicit=lambda tier: conf.grid([(w, h) for w in range(2, 42, 2) for h in range(6, 61, 6)], (3,),
                                              styles=("SD6",))),
          Sub("distance", check, conf.configs(max_vol=3600, max_n=40, max_tw=10, max_th=5),
              quick=120, thorough=2500, explicit=explicit)],
)
