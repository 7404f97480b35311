import math

import numpy as np
from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, rejects
from .. import conf, demgen as dg, fakedec as fd
from .c15 import build, Oracle, models, edges_of


def count(circuit, shots, decoder="pymatching", model=None, what="counting"):
    from decoding import sample_decode_count_correct
    with sut(what):
        if model is None:
            r = sample_decode_count_correct(circuit=circuit, num_shots=shots, decoder=decoder)
        else:
            r = sample_decode_count_correct(circuit=circuit, model_circuit=model, num_shots=shots, decoder=decoder)
    require(int(r) == r and 0 <= r <= shots, "count %r of %d shots", r, shots)
    return int(r)


def fired(case, chosen):
    s = o = 0
    for i in chosen:
        _, ds, os_ = case["errors"][i]
        for d in ds:
            s ^= 1 << d
        for x in os_:
            o ^= 1 << x
    return s, o


def check_exact(case, ctx):
    """The sampled circuit always has the same faults: every shot must be scored the same, known way."""
    model = build(case)
    try:
        oracle = Oracle(model)
    except ValueError:
        return
    chosen = [i for i in case["chosen"] if i < len(case["errors"])]
    s, o = fired(case, chosen)
    if not (oracle.sym == s).any():
        return
    extra = case["extra"] & ((1 << case["no"]) - 1)
    o ^= extra
    det = dict(case, errors=[[1.0, [d for d in range(case["nd"]) if s >> d & 1], [k for k in range(case["no"]) if o >> k & 1]]])
    c = build(det)
    ok, n_expl = oracle.allowed(s)
    shots = case["shots"]
    got = count(c, shots, model=model)
    if len(ok) == 1:
        want = shots if o in ok else 0
        require(got == want, "%d of %d shots correct, expected %d", got, shots, want)
        ctx.mark(n_expl > 1 or case["no"] > 1)
        ctx.label("all correct" if want else "none correct", f"{case['no']} obs")
    elif o not in ok:
        require(got == 0, "%d of %d shots correct, expected 0", got, shots)
        ctx.mark()
        ctx.label("none correct")


def fault_distribution(case):
    """Exact joint distribution over (symptoms, flips) of independent faults."""
    dist = {(0, 0): 1.0}
    for p, ds, os_ in case["errors"]:
        s = sum(1 << d for d in ds)
        o = sum(1 << k for k in os_)
        if not s and not o:
            continue
        new = {}
        for (a, b), q in dist.items():
            new[(a, b)] = new.get((a, b), 0) + q * (1 - p)
            new[(a ^ s, b ^ o)] = new.get((a ^ s, b ^ o), 0) + q * p
        dist = new
    return dist


def check_rate(case, ctx):
    """The number of correct shots matches its exactly computed expectation within 6.5 standard deviations."""
    c = build(case)
    try:
        oracle = Oracle(c)
    except ValueError:
        return
    lo = hi = 0.0
    allowed = {}
    for (s, o), q in fault_distribution(case).items():
        if s not in allowed:
            if not (oracle.sym == s).any():
                return
            allowed[s] = oracle.allowed(s)[0]
        ok = allowed[s]
        if o in ok:
            hi += q
            if len(ok) == 1:
                lo += q
    shots = case["n"]
    got = count(c, shots)
    sd = lambda x: 6.5 * math.sqrt(max(x * (1 - x), 0) * shots) + 8
    require(got >= lo * shots - sd(lo), "%d of %d shots correct, expected at least %.1f", got, shots, lo * shots)
    require(got <= hi * shots + sd(hi), "%d of %d shots correct, expected at most %.1f", got, shots, hi * shots)
    ctx.mark(0.02 < lo < 0.98)
    ctx.label("sharp" if hi - lo < 1e-6 else "ties", f"{case['no']} obs")


def check_scored(case, ctx):
    """With the scripted external decoder the detection events of every shot are known, so the count is known exactly."""
    nd, no = case["nd"], case["no"]
    # detectors fire independently; observable k is the parity of the detectors in obs[k], xor a constant flip
    errs = []
    for d in range(nd):
        errs.append([0.4, [d], [k for k in range(no) if d in case["obs"][k]]])
    const = [k for k in range(no) if case["const"] >> k & 1]
    if const:
        errs.append([1.0, [], const])
    c = build(dict(nd=nd, no=no, errors=errs))
    with fd.scratch_cwd() as w:
        fd.install(w.cwd, w.root / "home", dict(kind="masks", masks=case["masks"][:no], flips=case["flips"][:no]))
        got = count(c, case["shots"], decoder=case["decoder"])
        calls = fd.calls(w.root / "home")
    require(len(calls) >= 1, "the external decoder was not called")
    n = 0
    total = 0
    for call in calls:
        for line in call["-dets_fname"].splitlines():
            f = {int(x[1:]) for x in line.split()[1:]}
            total += 1
            n += all((len(f & set(case["obs"][k])) + (case["const"] >> k)) % 2 == (len(f & set(case["masks"][k])) + case["flips"][k]) % 2
                     for k in range(no))
    require(total == case["shots"], "%d shots decoded of %d", total, case["shots"])
    require(got == n, "%d of %d shots reported correct, %d predictions match", got, case["shots"], n)
    ctx.mark(0 < n < total)
    ctx.label(f"{no} obs", case["decoder"])


def check_honeycomb(case, ctx):
    """Real memory experiments: rate against an independent sample/graph/match pipeline, two-sided 6 sigma."""
    import pymatching
    conf.classes(case, ctx)
    with sut("generating"):
        c = conf.layout(case).make_circuit()
    n = case["shots"]
    got = count(c, n)
    edges = edges_of(c)
    m = pymatching.Matching()
    bd = c.num_detectors
    for k, (p, fr) in edges.items():
        w = math.log((1 - p) / p)
        if bd in k:
            (d,) = [x for x in k if x != bd]
            m.add_boundary_edge(d, weight=w, fault_ids=set(fr))
        else:
            a, b = k
            m.add_edge(a, b, weight=w, fault_ids=set(fr))
    m.ensure_num_fault_ids(c.num_observables)
    n2 = 4 * n
    dets, obs = c.compile_detector_sampler(seed=7).sample(n2, separate_observables=True)
    if m.num_detectors < bd:
        dets = dets[:, :m.num_detectors]
    ref = int((m.decode_batch(dets) == obs).all(axis=1).sum())
    p = (got + ref) / (n + n2)
    se = math.sqrt(max(p * (1 - p), 1 / n) * (1 / n + 1 / n2))
    require(abs(got / n - ref / n2) <= 6.5 * se + 2 / n, "%d of %d shots correct, the reference pipeline gets %d of %d", got, n, ref, n2)
    ctx.mark(0.02 < 1 - p < 0.45)
    ctx.label("informative" if 0.02 < 1 - p < 0.45 else "saturated")


def check_rejects(case, ctx):
    from decoding import sample_decode_count_correct
    c = build(case)
    rejects(lambda: sample_decode_count_correct(circuit=c, num_shots=1, decoder=case["name"]), f"decoder {case['name']!r}")
    other = build(dict(nd=case["nd"] + case["dd"], no=case["no"] + case["do"], errors=[]))
    if case["dd"] or case["do"]:
        rejects(lambda: sample_decode_count_correct(circuit=c, model_circuit=other, num_shots=1, decoder="pymatching"),
                "an incompatible model circuit")
        rejects(lambda: sample_decode_count_correct(circuit=other, model_circuit=c, num_shots=1, decoder="pymatching"),
                "an incompatible model circuit")
    ctx.mark()


@st.composite
def exact(draw):
    m = draw(models())
    m["chosen"] = draw(st.lists(st.integers(0, 12), max_size=4, unique=True))
    m["extra"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 7]))
    m["shots"] = draw(st.sampled_from([1, 2, 3, 7, 64, 257, 257, 1025, 2100]))
    return m


@st.composite
def rate(draw):
    m = draw(models())
    m["n"] = 6000
    return m


@st.composite
def scored(draw):
    nd, no = draw(st.integers(1, 9)), draw(st.integers(0, 4))
    sets = st.lists(st.integers(0, nd - 1), max_size=3, unique=True).map(sorted)
    obs = [draw(sets) for _ in range(no)]
    masks = [list(o) if draw(st.booleans()) else draw(sets) for o in obs]
    return dict(nd=nd, no=no, obs=obs, const=draw(st.integers(0, (1 << no) - 1)), masks=masks,
                flips=[draw(st.integers(0, 1)) for _ in range(no)], shots=draw(st.sampled_from([1, 2, 30, 100])),
                decoder=draw(st.sampled_from(["internal", "internal_correlated"])))


@st.composite
def many_scored(draw):
    """Dozens of observables, nearly all predicted correctly: some swapped in pairs or predicted as a constant."""
    nd, no = draw(st.integers(2, 7)), draw(st.sampled_from([9, 17, 33, 40, 63, 64, 65, 70, 100, 130, 130, 300]))
    step, shift = draw(st.integers(1, 5)), draw(st.integers(0, 6))
    obs = [[(k * step + k // 7 + shift) % nd] for k in range(no)]
    masks, flips = [list(o) for o in obs], [0] * no
    const = draw(st.sampled_from([0, 0, 1, (1 << no) - 1, (1 << no) // 3]))
    flips = [const >> k & 1 for k in range(no)]
    for _ in range(draw(st.integers(0, 2))):
        a = draw(st.integers(0, no - 1))
        kind = draw(st.sampled_from(["swap", "swap far", "swap far", "other"]))
        if kind == "other":
            masks[a] = sorted({*masks[a]} ^ {draw(st.integers(0, nd - 1))})
        else:
            far = [d for d in (64, 32, 16, 8, 128, 256) if d < no]
            if kind == "swap far" and far:
                d = draw(st.sampled_from(far[:3]))
                a = draw(st.integers(0, no - d - 1))
                b = a + d
            else:
                b = (a + draw(st.integers(1, no))) % no
            masks[a], masks[b], flips[a], flips[b] = masks[b], masks[a], flips[b], flips[a]
    return dict(nd=nd, no=no, obs=obs, const=const, masks=masks, flips=flips, shots=draw(st.sampled_from([1, 30, 100])),
                decoder=draw(st.sampled_from(["internal", "internal_correlated"])))


@st.composite
def reject_cases(draw):
    m = draw(models())
    m["name"] = draw(st.sampled_from(["", "pymatch", "PyMatching", "internal_correlated2", "external", "correlated", "none"]))
    m["dd"] = draw(st.integers(0, 2))
    m["do"] = draw(st.integers(0, 2))
    return m


def hc(tier):
    for style, p in (("SD6", 0.003), ("SI1000", 0.002), ("EM3", 0.006), ("EM3_v2", 0.006), ("PC3", 0.004)):
        for obs in "HV":
            for w, h in ((2, 6), (4, 6), (4, 12)) if tier == "quick" else ((2, 6), (4, 6), (4, 12), (6, 12), (8, 12)):
                yield dict(w=w, h=h, n=24 if h == 12 else 12, style=style, obs=obs, noise=p,
                           shots=1500 if tier == "quick" else 20000)


PROP = Prop(
    id="C16",
    rule="Cases are random error models sampled with fixed faults (exact expected count), with random faults (exact "
         "expectation, 6.5 sigma), with a scripted external decoder (exact count from the recorded detection events), "
         "and real memory experiments against an independent pipeline; non-trivial when several outcomes compete "
         "(several explanations or observables, or some but not all shots correct).",
    assumptions=["statistical comparisons use 6.5 standard deviations (false alarm below 1e-9 per case)",
                 "ties between minimum-weight explanations may be broken either way"],
    subs=[Sub("fixed faults", check_exact, exact(), quick=9000, thorough=80000),
          Sub("rates", check_rate, rate(), quick=900, thorough=8000),
          Sub("scripted decoder", check_scored, scored(), quick=900, thorough=6000),
          Sub("many observables", check_scored, many_scored(), quick=300, thorough=4000),
          Sub("honeycomb", check_honeycomb, explicit=hc),
          Sub("rejected", check_rejects, reject_cases(), quick=160, thorough=2000)],
)
