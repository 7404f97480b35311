import collections

from ..core import Prop, Sub, require, sut
from .. import conf, circ, refmodel


def _fmt(items):
    return "; ".join(f"{tuple(c)} <- {sorted(map(str, s))[:6]}" for s, c in items[:2])


def check(case, ctx):
    conf.classes(case, ctx)
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    p = circ.parse(circ.strip_noise(c))
    labels = circ.schedule_labels(p, g, n)
    cum = case["style"] == "PC3"
    got = collections.Counter((frozenset(labels[i] for i in s), tuple(cc)) for s, cc in p.detectors)
    want = collections.Counter((circ.from_values(s, cum), tuple(float(v) for v in cc))
                               for s, cc in refmodel.expected_detectors(g, n, case["obs"]))
    missing, extra = list((want - got).elements()), list((got - want).elements())
    require(not missing and not extra, "detectors differ: %d missing (%s), %d unexpected (%s)",
            len(missing), _fmt(missing), len(extra), _fmt(extra))
    if n <= 400:
        cd = c.get_detector_coordinates()
        want_c = collections.Counter(tuple(float(v) for v in cc)
                                     for _, cc in refmodel.expected_detectors(g, n, case["obs"]))
        require(collections.Counter(map(tuple, cd.values())) == want_c,
                "reported detector coordinates differ from the hexagon centres / sub-round indices")
    ctx.mark(sum(want.values()) > 0)
    ctx.label("noisy" if case["noise"] else "noiseless", "hexagon compared twice" if n >= 7 else "start/end only")


def check_long(case, ctx):
    """Very many sub-rounds: the number of detectors and the place and time of the first and last ones."""
    conf.classes(case, ctx)
    g = conf.g_of(case)
    n = case["n"]
    with sut("generating the circuit"):
        c = conf.layout(case).make_circuit()
    n0 = 24 + n % 6
    a, b = ([cc for _, cc in refmodel.expected_detectors(g, k, case["obs"])] for k in (n0, n0 + 6))
    count = len(a) + (len(b) - len(a)) * ((n - n0) // 6)
    require(c.num_detectors == count, "%d detectors, expected %d", c.num_detectors, count)
    by_time = lambda ts: collections.Counter((float(x), float(y), float(t)) for x, y, t in ts)
    head = sum(t < 12 for _, _, t in a)
    tail = [(x, y, t + n - n0) for x, y, t in a if t >= 12]
    with sut("reading detector coordinates"):
        first = c.get_detector_coordinates(only=list(range(head)))
        last = c.get_detector_coordinates(only=list(range(count - len(tail), count)))
    require(by_time(first.values()) == by_time(x for x in a if x[2] < 12), "the first %d detectors are not those of the first 12 sub-rounds", head)
    require(by_time(last.values()) == by_time(tail), "the last %d detectors are not those of the last sub-rounds", len(tail))
    ctx.mark()


def explicit(tier):
    q = tier == "quick"
    yield from conf.grid([(2, 6)], range(1, 81 if q else 240))
    yield from conf.grid([(4, 6), (2, 12), (6, 6), (4, 12)], range(1, 27))
    yield from conf.grid([(2, 6), (4, 12)], range(1, 16), noises=(0.01,))
    yield from conf.grid([(8, 12), (14, 6), (2, 30), (6, 18), (12, 12), (20, 6), (4, 36), (16, 24)],
                         (1, 2, 3, 4, 6, 8, 12, 13, 14, 22, 31))
    yield from conf.grid([(60, 6), (2, 120), (80, 12), (20, 30)], (4, 6))
    yield from conf.grid([(2, 6)], (300, 601, 602, 999, 2000))


PROP = Prop(
    id="C03",
    rule="Cases are configurations; non-trivial when the reference model expects at least one detector. The detector "
         "annotations of the unrolled circuit, as sets of labelled records with coordinates, must equal the reference "
         "model's list exactly (as multisets).",
    subs=[Sub("detectors", check, conf.configs(max_vol=9000, max_n=150, max_tw=14, noises=(0, 0, 0.01)),
              quick=500, thorough=6000, explicit=explicit),
          Sub("long", check, conf.long_runs(4000, sizes=((2, 6),)), quick=16, thorough=600),
          Sub("very long", check_long, conf.long_runs(10 ** 9), quick=100, thorough=2000)],
)
