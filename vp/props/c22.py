import math

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, rejects


def approx_err(*ms):
    """What Stirling's approximation (documented, for m >= 20) may be off by, plus float rounding."""
    out = 0.0
    for m in ms:
        if m >= 20:
            out += 1 / (12 * m)
        out += 4e-15 * (m * math.log(m + 2) + 10)
    return out


def exact(p, n, h):
    p = min(1.0, max(0.0, p))
    m = n - h
    if (h and p == 0) or (m and p == 1):
        return -math.inf
    out = math.lgamma(n + 1) - math.lgamma(h + 1) - math.lgamma(m + 1) if n > 60 else math.log(math.comb(n, h))
    if h:
        out += h * math.log(p)
    if m:
        out += m * math.log1p(-p)
    return out


def check_binomial(case, ctx):
    from probability_util import log_binomial
    n, h, ps = case["n"], case["h"], case["ps"]
    with sut("log_binomial"):
        single = [float(log_binomial(p=p, n=n, hits=h)) for p in ps]
        arr = np.array(ps, dtype=np.float64).reshape(case["shape"])
        keep = arr.copy()
        out = log_binomial(p=arr, n=n, hits=h)
    require(np.shape(out) == arr.shape, "shape %r for %r", np.shape(out), arr.shape)
    require((keep == arr).all(), "the argument was modified")
    flat = np.asarray(out, dtype=np.float64).reshape(-1)
    for p, a, b in zip(ps, single, flat):
        want = exact(p, n, h)
        for got in (a, float(b)):
            if math.isinf(want):
                require(got == want, "log P(%d of %d at %r) is %r, expected %r", h, n, p, got, want)
            else:
                tol = approx_err(n, h, n - h) + 1e-12 * (h * abs(math.log(min(1, max(p, 1e-320)) or 1)) + (n - h) * abs(math.log1p(-min(p, 1 - 1e-16))) + 1)
                if h in (0, n):
                    # There is one way to choose, so nothing but the logarithm of the probability contributes.
                    tol = min(tol, 1e-9 * abs(want) + 1e-13)
                require(abs(got - want) <= tol, "log P(%d of %d at %r) is %r, exactly %r", h, n, p, got, want)
                require(got <= tol, "log probability %r is positive", got)
    ctx.mark(0 < h < n and any(0 < p < 1 for p in ps))
    ctx.label("n<20" if n < 20 else "n<1000" if n < 1000 else "large", *({"p=0", } if 0.0 in ps else []), *({"p=1"} if 1.0 in ps else []),
              *({"clamped"} if any(p < 0 or p > 1 for p in ps) else []))


def check_factorial(case, ctx):
    from probability_util import log_factorial
    n = case
    with sut("log_factorial"):
        got = float(log_factorial(n))
    want = math.log(math.factorial(n)) if n < 150 else math.lgamma(n + 1)
    require(abs(got - want) <= approx_err(n), "log %d! is %r, exactly %r", n, got, want)
    ctx.mark(n > 1)
    ctx.label("direct" if n < 20 else "Stirling")


def check_search(case, ctx):
    from probability_util import binary_search
    a, steps = case["min"], case["steps"]
    vals = []
    v = case["start"]
    for s in steps:
        vals.append(v)
        v = v + s if not math.isinf(v) else v
    vals.append(v)
    if case["neginf"]:
        for i in range(min(case["neginf"], len(vals))):
            vals[i] = -math.inf
    if case["posinf"]:
        for i in range(min(case["posinf"], len(vals))):
            vals[-1 - i] = math.inf
    b = a + len(vals) - 1

    def f(x):
        require(x == int(x) and a <= x <= b, "function evaluated at %r outside [%d, %d]", x, a, b)
        return vals[int(x) - a]
    t = case["target"] if not case["hit"] else vals[case["hit"] % len(vals)]
    with sut("search"):
        x = binary_search(func=f, min_x=a, max_x=b, target=t)
    require(x == int(x) and a <= x <= b, "returned %r outside [%d, %d]", x, a, b)

    def dist(y):
        return 0.0 if y == t else abs(y - t)
    best = min(dist(y) for y in vals)
    require(dist(vals[int(x) - a]) == best, "value %r at %d is not the nearest to %r (distance %r possible)", vals[int(x) - a], x, t, best)
    ctx.mark(len(vals) > 3)
    ctx.label("exact" if best == 0 else "between", "plateaus" if 0 in steps else "strict", *(["infinite values"] if case["neginf"] or case["posinf"] else []))


FUNCS = {
    "line": lambda x, k: k * x,
    "cubic": lambda x, k: k * (x + x ** 3 / 7),
    "root": lambda x, k: k * np.sign(x) * np.sqrt(abs(x)),
    "exp": lambda x, k: k * np.expm1(np.clip(x, -700, 700)),
    "square": lambda x, k: k * x * abs(x),
}


def check_intercept(case, ctx):
    from probability_util import binary_intercept
    k, kind, x0, dx, sign = case["k"], case["kind"], case["x0"], case["dx"], case["sign"]
    shift = case["shift"]
    base = FUNCS[kind]

    def f(x):
        return float(base(x - shift, k))
    if case["even"]:
        # as used by the line fits: a parabola around the start, each side monotonic
        def f(x, f0=case["x0"]):
            return abs(k) * (x - f0) ** 2 + shift
    goal = x0 + sign * dx
    t = f(goal)
    scale = max(abs(t), abs(f(x0)), 1e-9)
    atol = max(case["atol"], 1e-9 * scale)
    with sut("intercept"):
        x = binary_intercept(func=f, start_x=x0, step=sign * case["step"], target_y=t, atol=atol)
    require(abs(f(x) - t) <= atol * (1 + 1e-9), "value %r at %r is not within %r of %r", f(x), x, atol, t)
    require(sign * (x - x0) >= 0, "returned %r, searching from %r in direction %+d", x, x0, sign)
    ctx.mark(abs(f(x0) - t) > atol)
    ctx.label(kind if not case["even"] else "parabola", "up" if sign > 0 else "down", "at start" if abs(f(x0) - t) <= atol else "away")


probs = st.sampled_from([0.0, 1.0, 0.5, 1e-3, -1e-9, 1 + 1e-9, 1e-12, 1 - 1e-12, -0.5, 2.0, 1e-17]) | st.floats(0, 1) |\
    st.floats(0, 1e-6)


@st.composite
def binom(draw):
    n = draw(st.integers(0, 50) | st.integers(0, 2000) | st.integers(0, 10 ** 7) | st.integers(0, 10 ** 12) | st.sampled_from([18, 19, 20, 21, 39, 40, 41]))
    h = draw(st.integers(0, n) | st.sampled_from([0, n, n // 2, min(n, 19), min(n, 20), max(0, n - 20)]))
    k = draw(st.sampled_from([1, 2, 3, 4, 6, 8]))
    ps = draw(st.lists(probs, min_size=k, max_size=k))
    shapes = [[k], [1, k], [k, 1]] + ([[2, k // 2]] if k % 2 == 0 else [])
    return dict(n=n, h=h, ps=ps, shape=draw(st.sampled_from(shapes)))


@st.composite
def searches(draw):
    return dict(min=draw(st.integers(-1000, 10 ** 9)), steps=draw(st.lists(st.sampled_from([0, 1, 1, 2, 5, 0.25, 1000]), max_size=60)),
                start=draw(st.integers(-30, 30)), neginf=draw(st.sampled_from([0, 0, 0, 1, 2, 9])), posinf=draw(st.sampled_from([0, 0, 0, 1, 3])),
                target=draw(st.integers(-40, 120) | st.floats(-50, 200) | st.sampled_from([-1e9, 1e9])), hit=draw(st.sampled_from([0, 0, 1, 5, 17])))


@st.composite
def intercepts(draw):
    even = draw(st.booleans())
    return dict(kind=draw(st.sampled_from(sorted(FUNCS))), k=draw(st.sampled_from([1.0, -1.0, 0.3, -7.0, 20.0])), x0=draw(st.floats(-20, 20)),
                dx=draw(st.floats(0.01, 30) | st.sampled_from([0.0, 1.0, 2.0])), sign=draw(st.sampled_from([1, -1])), shift=draw(st.floats(-5, 5)), even=even,
                step=draw(st.sampled_from([1, 1, 0.1, 3.7, 1e-3])), atol=draw(st.sampled_from([1e-5, 1e-3, 1e-7])))


PROP = Prop(
    id="C22",
    rule="Cases are random binomial arguments (scalar and array p incl. 0, 1 and out of range), every factorial up to a bound, random "
         "monotonic integer tables with plateaus and infinities, and random monotonic real functions and search directions; non-trivial "
         "when the answer is not forced by an edge case. Oracle: exact log-gamma/combinatorial values; exhaustive nearest value; direct evaluation.",
    assumptions=["log factorials may differ from the exact value by Stirling's error 1/(12 n) from n = 20 on (the documented approximation)",
                 "searched functions are monotonic and reach the target"],
    subs=[Sub("log binomial", check_binomial, binom(), quick=12000, thorough=300000),
          Sub("log factorial", check_factorial, st.integers(0, 10 ** 9) | st.integers(0, 400), quick=2000, thorough=40000, explicit=lambda t: range(0, 300)),
          Sub("integer search", check_search, searches(), quick=12000, thorough=300000),
          Sub("intercept", check_intercept, intercepts(), quick=8000, thorough=200000)],
)
