from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, close, rejects
from .. import noisegen as ng

NAMES = ["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"]
GATES = {
    "SD6": ng.C1 + ["CX", "CX", "CX", "R", "R", "M", "M"],
    "PC3": ng.C1 + ng.C2 + ["R", "R", "M", "M"],
    "EM3_v1": ng.C1 + ["R", "M", "MPP", "MPP", "MPP"],
    "EM3_v2": ng.C1 + ["R", "M", "MPP", "MPP", "MPP", "CX", "CZ", "YCX"],
    "SI1000": ng.C1 + ["CZ", "CZ", "CZ", "R", "R", "M", "M"],
}
ALL = ng.C1 + ng.C2 + ng.RESETS + ng.MEASURES + ["MPP"]
PS = [0.001, 0.01, 0.1, 0.0625, 1e-7, 0.15]


def norm(counter):
    out = {}
    for (name, p, ts), n in counter.items():
        if n:
            out.setdefault((name, ts), []).extend([p] * n)
    return {k: sorted(v) for k, v in out.items()}


def same(a, b):
    a, b = norm(a), norm(b)
    if set(a) != set(b):
        return f"channels {sorted(set(a) ^ set(b), key=str)[:3]} differ"
    for k in a:
        if len(a[k]) != len(b[k]) or not all(close(x, y, 1e-9, 1e-300) for x, y in zip(a[k], b[k])):
            return f"{k}: strengths {a[k][:3]} vs expected {b[k][:3]}"
    return None


def compare(prog_parts, stim_parts, model, qs, corr_p, qubits, where="circuit"):
    stats = [0, 0]
    # Layers holding only annotations produce the same annotations; drop empty differences by walking in step.
    i = j = 0
    A, B = prog_parts, stim_parts
    require([p[0] for p in A] == [p[0] for p in B], "%s: layer structure %r became %r", where,
            [p[0] for p in A], [p[0] for p in B])
    for pa, pb in zip(A, B):
        if pa[0] == "loop":
            require(pa[1] == pb[1], "%s: loop of %d iterations became %d", where, pa[1], pb[1])
            s = compare(pa[2], pb[2], model, qs, corr_p, qubits, where + "/loop")
            stats[0] += s[0]
            stats[1] += 1
        elif pa[0] == "layer":
            pre, mid, post, used = ng.expected_layer(pa[1], model, qs, corr_p)
            gpre, gmid, gpost, problems = ng.observed_layer(pb[1], qubits)
            require(not problems, "%s: %s", where, "; ".join(problems[:2]))
            # Channels on qubits the layer does not touch have no before/after.
            for key in [k for k in gpre if not (set(k[2]) & used)]:
                gpost[key] += gpre.pop(key)
            for got, want, nm in ((gpre, pre, "before"), (gmid, mid, "inside"), (gpost, post, "after")):
                diff = same(got, want)
                require(diff is None, "%s: channels %s the layer's operations: %s", where, nm, diff)
            stats[0] += sum(pre.values()) + sum(post.values()) + sum(mid.values())
    return stats


def run(case, nm, model, ctx):
    prog = case["prog"]
    c, _ = ng.to_stim(prog)
    nq = c.num_qubits
    qs = None if case.get("qs") is None else {q for q in case["qs"]}
    with sut("adding noise"):
        noisy = nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs))
    corr_p = 0.5 - 0.5 * (1 - model.strengths.get("MPP", 0)) ** (1 / 16)
    stats = compare(ng.split(prog), ng.split_stim(noisy), model, range(nq) if qs is None else qs, corr_p,
                    set(range(nq)))
    if case.get("again") is not None:   # the same model and circuit once more, with other idling qubits
        qs2 = {q for q in case["again"]}
        with sut("adding noise again"):
            noisy2 = nm.noisy_circuit(c, qs=set(qs2))
        compare(ng.split(prog), ng.split_stim(noisy2), model, qs2, corr_p, set(range(nq)), "second circuit")
        with sut("adding noise a third time"):
            noisy3 = nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs))
        require(noisy3 == noisy, "the same call gives another circuit later")
        ctx.label("repeated")
    ctx.mark(stats[0] > 0)
    ctx.label("loops" if stats[1] else "straight line", "idle subset" if qs is not None else "all idle")
    return noisy


def check_named(case, ctx):
    from noise import NoiseModel
    name, p = case["model"], case["p"]
    with sut("building the model"):
        nm = getattr(NoiseModel, name)(p)
    run(case, nm, ng.named(name, p), ctx)
    ctx.label(name)


def check_large(case, ctx):
    """The same on thousands of qubits, with high qubit numbers, and over hundreds of layers."""
    check_named(dict(case, prog=ng.scaled(case["prog"], *case["scale"])), ctx)
    ctx.label("wide" if case["scale"][1] > 1 else "narrow", "long" if case["scale"][2] > 1 else "short",
              "high numbers" if case["scale"][3] else "from zero")


def check_custom(case, ctx):
    from noise import NoiseModel
    m = case["custom"]
    with sut("building the model"):
        nm = NoiseModel(idle=m["idle"], measure_reset_idle=m["mri"], noisy_gates=dict(m["gates"]),
                        any_clifford_1=m["c1"], any_clifford_2=m["c2"],
                        use_correlated_parity_measurement_errors=m["corr"])
    strengths = {}
    if m["c1"] is not None:
        strengths.update({g: m["c1"] for g in ng.C1})
    if m["c2"] is not None:
        strengths.update({g: m["c2"] for g in ng.C2})
    strengths.update(m["gates"])
    model = ng.Model(strengths, m["idle"], m["mri"], m["corr"])
    c, _ = ng.to_stim(case["prog"])
    missing = ng.gates_of(case["prog"]) - set(strengths)
    if missing:
        rejects(lambda: nm.noisy_circuit(c), f"circuit with gates {sorted(missing)} outside the model")
        ctx.label("rejected")
        ctx.mark()
        return
    run(case, nm, model, ctx)
    ctx.label("accepted")


def check_reject(case, ctx):
    """Gates outside each named model."""
    from noise import NoiseModel
    nm = getattr(NoiseModel, case["model"])(case["p"])
    c = stim.Circuit("R 0 1\nTICK\n" + case["op"] + "\nTICK\nM 0")
    if case["in_loop"]:
        c = stim.Circuit("R 0 1\nTICK\nREPEAT 3 {\n" + case["op"] + "\nTICK\n}\nM 0")
    rejects(lambda: nm.noisy_circuit(c), f"{case['op']} in model {case['model']}")
    ctx.mark()


OPS = {g: f"{g} 0" for g in ng.C1 + ng.RESETS + ng.MEASURES}
OPS.update({g: f"{g} 0 1" for g in ng.C2})
OPS["MPP"] = "MPP X0*Z1"
for g in ["S", "SQRT_X", "X", "Z", "MR", "MRX", "SWAP", "ISWAP", "MXX", "MZZ", "CXSWAP", "SQRT_XX", "H_XY", "DEPOLARIZE1", "X_ERROR"]:
    OPS[g] = f"{g}(0.1) 0" if g in ("DEPOLARIZE1", "X_ERROR") else (
        f"{g} 0 1" if stim.gate_data(g).is_two_qubit_gate or g in ("MXX", "MZZ") else f"{g} 0")


def rej_cases(tier):
    for name in NAMES:
        ok = set(ng.named(name, 0.1).strengths)
        for g, text in OPS.items():
            if g not in ok:
                for in_loop in (False, True):
                    for p in (0.0, 0.01):
                        yield dict(model=name, op=text, in_loop=in_loop, p=p)


def check_parity(case, ctx):
    """Parity measurements the models have no noise for: other than two factors, or noisy already."""
    from noise import NoiseModel
    m = case["model"]
    nm = getattr(NoiseModel, m)(case["p"]) if m != "custom" else NoiseModel(
        idle=case["p"], measure_reset_idle=0, noisy_gates={"MPP": case["p"], "R": case["p"]}, use_correlated_parity_measurement_errors=case["corr"])
    text = " ".join("*".join(P + str(q) for P, q in prod) for prod in case["prods"])
    arg = "" if case["arg"] is None else f"({case['arg']!r})"
    c = stim.Circuit(f"R 0 1 2 3 4 5 6 7 8\nTICK\nMPP{arg} {text}\nTICK")
    if case["arg"] or any(len(prod) != 2 for prod in case["prods"]):
        rejects(lambda: nm.noisy_circuit(c), f"MPP{arg} {text} in model {m}")
        ctx.label("refused", f"{'/'.join(str(len(x)) for x in case['prods'])} factors", "already noisy" if case["arg"] else "noiseless")
    else:
        with sut(f"adding noise to MPP{arg} {text}"):
            noisy = nm.noisy_circuit(c)
        plain = stim.Circuit(f"R 0 1 2 3 4 5 6 7 8\nTICK\nMPP {text}\nTICK")
        require(noisy == nm.noisy_circuit(plain) or str(noisy).replace("MPP(0)", "MPP") == str(nm.noisy_circuit(plain)), "an explicit zero argument changes the noise")
        ctx.label("accepted")
    ctx.mark()


@st.composite
def parities(draw):
    qs = iter(draw(st.permutations(range(9))))
    sizes = draw(st.lists(st.sampled_from([1, 2, 2, 2, 2, 3, 4]), min_size=1, max_size=2))
    return dict(model=draw(st.sampled_from(["EM3_v1", "EM3_v2", "custom"])), corr=draw(st.booleans()), p=draw(st.sampled_from([0.001, 0.01, 0.125])),
                arg=draw(st.sampled_from([None, None, 0, 0.01, 0.25])), prods=[[[draw(st.sampled_from("XYZ")), next(qs)] for _ in range(k)] for k in sizes])


prob = st.sampled_from(PS + [0.0]) | st.floats(1e-6, 0.19)


@st.composite
def named_cases(draw):
    name = draw(st.sampled_from(NAMES))
    prog = draw(ng.circuits(GATES[name]))
    qs = draw(st.none() | st.none() | st.lists(st.integers(0, 8), max_size=6, unique=True))
    again = draw(st.none() | st.none() | st.lists(st.integers(0, 8), max_size=6, unique=True))
    return dict(model=name, p=draw(prob), prog=prog, qs=qs, again=again)


@st.composite
def large_cases(draw):
    name = draw(st.sampled_from(NAMES))
    case = draw(ng.large_circuits(GATES[name]))
    qs = draw(st.none() | st.none() | st.lists(st.integers(0, 4000), max_size=9, unique=True))
    return dict(case, model=name, p=draw(prob), qs=qs)


@st.composite
def custom_cases(draw):
    opt = st.none() | prob
    gates = draw(st.dictionaries(st.sampled_from(ALL), prob, max_size=10))
    c1, c2 = draw(opt), draw(opt)
    ok = sorted(set(gates) | (set(ng.C1) if c1 is not None else set()) | (set(ng.C2) if c2 is not None else set()))
    pool = ok if ok and draw(st.integers(0, 4)) else ALL
    prog = draw(ng.circuits(pool))
    return dict(custom=dict(idle=draw(prob), mri=draw(prob), gates=gates, c1=c1, c2=c2, corr=draw(st.booleans())),
                prog=prog, qs=draw(st.none() | st.lists(st.integers(0, 8), max_size=6, unique=True)),
                again=draw(st.none() | st.none() | st.lists(st.integers(0, 8), max_size=6, unique=True)))


PROP = Prop(
    id="C08",
    rule="Cases are (model, strength, circuit with layers, nested loops and annotations, set of idling qubits); "
         "non-trivial when the reference expects at least one channel or a rejection. Channels are compared per layer "
         "as multisets (name, strength, qubits), separately before, inside and after the layer's operations.",
    assumptions=["circuits use each qubit at most once between ticks, as every circuit in the repository does"],
    subs=[Sub("named-models", check_named, named_cases(), quick=5000, thorough=120000),
          Sub("large", check_large, large_cases(), quick=200, thorough=4000),
          Sub("custom-models", check_custom, custom_cases(), quick=3000, thorough=80000),
          Sub("odd parity measurements", check_parity, parities(), quick=400, thorough=4000),
          Sub("rejects", check_reject, explicit=rej_cases)],
)
