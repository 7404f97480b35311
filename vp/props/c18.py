import math

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import collect as cl


def plan(script, *, min_shots, max_shots, max_batch, min_errors, max_sd):
    """Reference: batch sizes and where to stop, given the errors of each batch. Returns (sizes, ambiguous)."""
    cap = max_shots if max_batch is None else max_batch
    size = min(min_shots, cap, max_shots)
    total = errs = 0
    sizes, results = [], []
    while True:
        sizes.append(size)
        e = script(len(sizes) - 1, size)
        results.append(e)
        total += size
        errs += e
        if total >= max_shots:
            return sizes, results, False
        if total >= min_shots:
            p = errs / total
            sd = math.sqrt(p * (1 - p) / total)
            if sd != max_sd and abs(sd - max_sd) < 1e-12 * max(sd, max_sd):
                return sizes, results, True
            if errs >= min_errors and sd <= max_sd:
                return sizes, results, False
            if 100 * errs >= 48 * total and errs >= 10:
                return sizes, results, False
        size = min(cap, 2 * size, max_shots - total)
        if len(sizes) > 3000:
            return sizes, results, True


def script_of(prob):
    def f(i, size):
        r = prob["rates"][i % len(prob["rates"])]
        if isinstance(r, int):
            return min(r, size)
        return min(size, int(size * r))
    return f


def check(case, ctx):
    from collect_data import collect_simulated_experiment_data, DecodingProblem
    probs = case["problems"]
    lim = case["limits"]
    want = []
    for i, p in enumerate(probs):
        sizes, results, amb = plan(script_of(p), min_shots=lim["min_shots"], max_shots=lim["max_shots"], max_batch=lim["max_batch"],
                                   min_errors=lim["min_errors"], max_sd=1 if lim["max_sd"] is None else lim["max_sd"])
        if amb:
            ctx.label("ambiguous")
            return
        want.append((sizes, results))
    if sum(len(s) for s, _ in want) > 1500:
        ctx.label("long run skipped")
        return
    makers = [cl.tag_circuit(i) for i in range(len(probs))]
    seen = {}

    def errors_of(k, circuit, shots):
        i = makers.index(circuit) if circuit in makers else -1
        require(i >= 0, "sampled a circuit of no problem")
        j = seen.get(i, 0)
        seen[i] = j + 1
        return script_of(probs[i])(j, shots)
    stub = cl.Scripted(errors_of, limit=2000)
    problems = [DecodingProblem(cl.desc_of(p["desc"]), (lambda c: lambda: c)(makers[i])) for i, p in enumerate(probs)]
    kw = dict(min_shots=lim["min_shots"], max_shots=lim["max_shots"], min_seen_logical_errors=lim["min_errors"],
              discard_previous_data=False)
    if lim["max_batch"] is not None:
        kw["max_batch"] = lim["max_batch"]
    if lim["max_sd"] is not None:
        kw["max_sample_std_dev"] = lim["max_sd"]
    with cl.scratch() as d, cl.scripted(stub), cl.quiet():
        with sut("collecting"):
            collect_simulated_experiment_data(problems, out_path=str(d / "o.csv") if case["file"] else None, **kw)
    got = []
    for c in stub.calls:
        i = makers.index(c["circuit"])
        if not got or got[-1][0] != i:
            got.append((i, [], []))
        got[-1][1].append(c["shots"])
        got[-1][2].append(c["errors"])
        require(c["decoder"] == probs[i]["desc"]["decoder"], "problem %d decoded with %r", i, c["decoder"])
        require(c["model"] is None or c["model"] == c["circuit"], "problem %d decoded with another model", i)
    require([g[0] for g in got] == list(range(len(probs))), "problems processed as %r of %d", [g[0] for g in got], len(probs))
    multi = 0
    for (i, sizes, errs), (ws, we) in zip(got, want):
        cap = lim["max_batch"] or lim["max_shots"]
        require(all(1 <= s <= cap for s in sizes), "problem %d: batch sizes %r with limit %d", i, sizes[:8], cap)
        require(sum(sizes) <= lim["max_shots"], "problem %d: %d shots taken, at most %d allowed", i, sum(sizes), lim["max_shots"])
        require(sizes == ws, "problem %d: batches %r, expected %r (errors %r)", i, sizes[:12], ws[:12], we[:12])
        multi += len(sizes) > 1
        t, e = sum(ws), sum(we)
        ctx.label("stop: max" if t >= lim["max_shots"] else ("stop: targets" if e >= lim["min_errors"] else "stop: hopeless"))
    ctx.mark(multi > 0)
    if lim["max_shots"] < lim["min_shots"]:
        ctx.label("max below min")
    if lim["max_batch"] and lim["max_batch"] < lim["min_shots"]:
        ctx.label("batch below min")


rates = st.lists(st.one_of(st.sampled_from([0.0, 0.0, 0.01, 0.1, 0.3, 0.47, 0.48, 0.49, 0.5, 1.0, 0.6]), st.sampled_from([0, 1, 2, 9, 10, 12])),
                 min_size=1, max_size=6)


@st.composite
def cases(draw):
    mn = draw(st.sampled_from([1, 2, 10, 25, 100, 1000]) | st.integers(1, 300))
    mx = draw(st.sampled_from([1, 10, 25, 1000, 10 ** 5, 10 ** 8]) | st.integers(1, 5000))
    mb = draw(st.sampled_from([None, None, 1 << 15, 100]) | st.integers(1, 400))
    if mb is not None and mx // mb > 1000:
        mx = mb * draw(st.integers(1, 300)) + draw(st.integers(0, 3))
    return dict(problems=draw(st.lists(st.builds(lambda d, r: dict(desc=d, rates=r), cl.descs(), rates), min_size=1, max_size=4)),
                limits=dict(min_shots=mn, max_shots=mx, max_batch=mb,
                            min_errors=draw(st.sampled_from([0, 1, 2, 10, 100, 1000]) | st.integers(0, 60)),
                            max_sd=draw(st.sampled_from([None, None, 1, 0.1, 0.01, 0.003, 0.0]))),
                file=draw(st.booleans()))


PROP = Prop(
    id="C18",
    rule="Cases are random limits (minimum/maximum shots, batch limit, error and deviation targets) and random scripts of batch "
         "results for 1-4 problems; non-trivial when some problem needs more than one batch. Oracle: an integer reference model "
         "of the stopping rule, batch by batch.",
    assumptions=["the sampler is replaced by the script", "minimum and maximum shots are at least 1",
                 "deviation targets within 1e-12 of the observed deviation are not judged"],
    subs=[Sub("stopping", check, cases(), quick=12000, thorough=300000)],
)
