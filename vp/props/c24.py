import math

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import stats


def f(p, n):
    from plotting import total_error_to_per_piece_error
    with sut("conversion"):
        return float(total_error_to_per_piece_error(p, n))


def check(case, ctx):
    p, n = case["p"], case["n"]
    q = f(p, n)
    require(0 <= q <= 1, "%r in %d pieces gives %r", p, n, q)
    tol = 4e-15 * n + 4e-16
    # odd number of flips among n pieces (mirrored above one half)
    side = q if p <= 0.5 else 1 - q
    goal = p if p <= 0.5 else 1 - p
    back = -math.expm1(n * math.log1p(-2 * side)) / 2 if side < 0.5 else 0.5
    cond = 1e-15 * n if goal < 0.499 else 1e-9
    require(abs(back - goal) <= tol + cond, "%r in %d pieces gives %r, which recombines to %r", p, n, q, back if p <= 0.5 else 1 - back)
    if p < 0.4999 or p > 0.5001:
        require(abs(q - stats.per_piece(p, n)) <= 1e-12, "%r in %d pieces gives %r, expected %r", p, n, q, stats.per_piece(p, n))
    require(min(q, 1 - q) <= min(p, 1 - p) + 1e-15, "%r in %d pieces gives the larger %r", p, n, q)
    require(abs(f(p, 1) - p) <= 1e-12, "one piece changes %r to %r", p, f(p, 1))
    require(f(0, n) == 0 and abs(f(0.5, n) - 0.5) < 1e-12 and abs(f(1.0, n) - 1) < 1e-12, "fixed points moved")
    p2 = case["p2"]
    a, b = min(p, p2), max(p, p2)
    require(f(a, n) <= f(b, n) + 1e-15, "not increasing between %r and %r", a, b)
    # cutting in two steps
    m = case["m"]
    require(abs(f(f(p, n), m) - f(p, n * m)) <= 1e-11, "%d pieces of %d pieces differ from %d pieces", m, n, n * m)
    ctx.mark(0 < p < 1 and n > 1)
    ctx.label("above half" if p > 0.5 else "below half", "tiny" if p < 1e-6 else "normal")


@st.composite
def cases(draw):
    ps = st.floats(0, 1) | st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75, 1e-9, 0.01, 0.99, 0.4999, 0.5001]) | st.floats(0, 0.05)
    return dict(p=draw(ps), p2=draw(ps), n=draw(st.integers(1, 12) | st.integers(1, 1000) | st.integers(1000, 10 ** 6)), m=draw(st.integers(1, 9)))


PROP = Prop(
    id="C24",
    rule="Cases are random rates in [0, 1] and piece counts up to a million; non-trivial for rates strictly inside and several pieces. "
         "Oracle: recombination with log1p/expm1 and metamorphic relations (monotonic, composition, fixed points).",
    assumptions=["compared to double precision"],
    subs=[Sub("conversion", check, cases(), quick=30000, thorough=600000)],
)
