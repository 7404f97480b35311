import math

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import stats


def call(n, e, ratio):
    from collect_data import ShotData
    with sut("bounds"):
        sd = ShotData(num_shots=n, num_correct=n - e)
        lo, hi = sd.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)
        rate = sd.logical_error_rate
    require(sd.num_shots == n and sd.num_correct == n - e, "the data was modified")
    return float(lo), float(hi), rate


def check(case, ctx):
    n, e, ratio = case["n"], case["e"], case["ratio"]
    lo, hi, rate = call(n, e, ratio)
    require(abs(rate - e / n) < 1e-12, "rate %r of %d errors in %d shots", rate, e, n)
    eps = 1e-12
    require(-eps <= lo <= e / n + eps, "low %r, observed %r", lo, e / n)
    require(e / n - eps <= hi <= 1 + eps, "high %r, observed %r", hi, e / n)
    want_lo, want_hi = stats.bounds(n, e, ratio)
    for name, got, want in (("low", lo * n, want_lo), ("high", hi * n, want_hi)):
        tol = 0.0101 + 2 * stats.slack(n, e, ratio, want) + 1e-12 * n
        require(abs(got - want) <= tol, "%s end is at %.6g expected errors, the likelihood ratio is reached at %.6g (n=%d, e=%d)", name, got, want, n, e)
    if e == 0:
        require(lo == 0, "low end %r without errors", lo)
    if e == n:
        require(abs(hi - 1) < 1e-12, "high end %r with only errors", hi)
    # wider for lower ratios
    lo2, hi2, _ = call(n, e, ratio * case["f"])
    s = 0.0101 / n + 2 * stats.slack(n, e, ratio, want_lo) / n
    require(lo2 <= lo + s and hi2 >= hi - s - 2 * stats.slack(n, e, ratio, want_hi) / n, "interval shrinks when the ratio is lowered")
    # mirror image
    mlo, mhi, _ = call(n, n - e, ratio)
    s = 0.0202 / n + 1e-12 + 2 * (stats.slack(n, e, ratio, want_lo) + stats.slack(n, e, ratio, want_hi)) / n
    require(abs(mlo - (1 - hi)) <= s and abs(mhi - (1 - lo)) <= s, "not mirrored: [%r, %r] against [%r, %r]", mlo, mhi, lo, hi)
    ctx.mark(0 < e < n)
    ctx.label("no errors" if e == 0 else "all errors" if e == n else "few errors" if e < 20 else "many errors",
              "n<20" if n < 20 else "n<1e4" if n < 10 ** 4 else "n<1e7" if n < 10 ** 7 else "large n", "tight" if ratio > 0.1 else "1e-3" if ratio >= 1e-4 else "tiny ratio")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 60) | st.integers(1, 10 ** 4) | st.integers(1, 10 ** 9) | st.sampled_from([19, 20, 21, 25, 100, 10 ** 3, 10 ** 5, 10 ** 6, 10 ** 8, 65536]))
    e = draw(st.integers(0, n) | st.integers(0, min(n, 50)) | st.sampled_from([0, n, n // 2, n // 100, max(0, n - 1)]))
    ratio = draw(st.sampled_from([1e-3, 1e-3, 1e-2, 0.1, 0.5, 0.9]) | st.floats(1e-12, 0.999) | st.floats(-290, -1).map(lambda k: 10.0 ** k))
    return dict(n=n, e=e, ratio=ratio, f=draw(st.sampled_from([0.5, 0.1, 1e-3])))


PROP = Prop(
    id="C21",
    rule="Cases are random shot counts up to 1e9, error counts and likelihood ratios; non-trivial when there are both errors and "
         "correct shots. Oracle: bisection on the exact log-likelihood difference.",
    assumptions=["at least one shot; ratio between 1e-290 and 0.999", "float rounding of log likelihoods is allowed for (relevant above about 1e8 shots)"],
    subs=[Sub("bounds", check, cases(), quick=12000, thorough=300000)],
)
