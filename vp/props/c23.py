import math

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut
from .. import stats


def cost(xs, ys, slope, icpt):
    return math.fsum((icpt + slope * x - y) ** 2 for x, y in zip(xs, ys))


def near(a, b, scale):
    return abs(a - b) <= 2e-4 * scale + 1e-9


def check_ranges(case, ctx):
    from probability_util import least_squares_output_range, least_squares_slope_range
    xs, ys, t, inc = case["xs"], case["ys"], case["t"], case["inc"]
    conv = np.array if case["arr"] else list
    with sut("slope range"):
        lo, mid, hi = least_squares_slope_range(xs=conv(xs), ys=conv(ys), cost_increase=inc)
    wl, wm, wh = stats.slope_range(xs, ys, inc)
    half = wh - wm
    require(near(mid, wm, half) , "best slope %r, expected %r", mid, wm)
    require(near(lo, wl, half) and near(hi, wh, half), "slope range [%r, %r], expected [%r, %r]", lo, hi, wl, wh)
    with sut("output range"):
        lo, hi = least_squares_output_range(xs=conv(xs), ys=conv(ys), target_x=t, cost_increase=inc)
    wl, wm, wh = stats.output_range(xs, ys, t, inc)
    half = wh - wm
    require(near(lo, wl, half) and near(hi, wh, half), "range at %r is [%r, %r], expected [%r, %r]", t, lo, hi, wl, wh)
    require(lo <= wm <= hi, "range does not bracket the best fit")
    res = cost(xs, ys, *stats.fit(xs, ys)[:2])
    ctx.mark(len(xs) > 2 and res > 1e-6)
    mn, mx = min(xs), max(xs)
    ctx.label("inside" if mn <= t <= mx else "extrapolated", "exact line" if res < 1e-9 else "scattered", f"{min(len(xs), 6)} points")


def check_fits(case, ctx):
    from probability_util import least_squares_through_point, least_squares_with_slope, least_squares_cost
    xs, ys = np.array(case["xs"], dtype=float), np.array(case["ys"], dtype=float)
    px, py, s = case["t"], case["py"], case["slope"]
    keep = (xs.copy(), ys.copy())
    with sut("cost"):
        c = least_squares_cost(xs=xs, ys=ys, intercept=py, slope=s)
    want = cost(case["xs"], case["ys"], s, py)
    require(abs(c - want) <= 1e-9 * (1 + want), "cost %r, expected %r", c, want)
    with sut("fit with slope"):
        r = least_squares_with_slope(xs=xs, ys=ys, required_slope=s)
    best = math.fsum(y - s * x for x, y in zip(case["xs"], case["ys"])) / len(xs)
    require(abs(r.slope - s) < 1e-12 * (1 + abs(s)), "slope %r instead of the required %r", r.slope, s)
    c0 = cost(case["xs"], case["ys"], s, best)
    got = cost(case["xs"], case["ys"], s, r.intercept)
    require(got <= c0 + 1e-6 * (1 + c0), "intercept %r costs %r, %r costs %r", r.intercept, got, best, c0)
    u = [x - px for x in case["xs"]]
    suu = math.fsum(a * a for a in u)
    with sut("fit through point"):
        r = least_squares_through_point(xs=xs, ys=ys, required_x=px, required_y=py)
    require(abs(r.intercept + r.slope * px - py) <= 1e-9 * (1 + abs(py) + abs(r.slope * px)), "the fit misses the required point")
    best = math.fsum(a * (y - py) for a, y in zip(u, case["ys"])) / suu
    c0 = cost(case["xs"], case["ys"], best, py - px * best)
    got = cost(case["xs"], case["ys"], r.slope, r.intercept)
    require(got <= c0 + 1e-6 * (1 + c0), "slope %r costs %r, %r costs %r", r.slope, got, best, c0)
    require((keep[0] == xs).all() and (keep[1] == ys).all(), "the data was modified")
    ctx.mark(len(xs) > 2)


@st.composite
def data(draw):
    n = draw(st.integers(2, 8) | st.integers(2, 8) | st.integers(9, 24))
    xs = draw(st.lists(st.integers(-20, 40), min_size=n, max_size=n, unique=draw(st.booleans())).map(lambda v: [float(a) for a in v])
              | st.lists(st.floats(-20, 40), min_size=n, max_size=n))
    if max(xs) - min(xs) < 1:
        xs[0] = xs[0] + 3.0
    if draw(st.booleans()) and all(x == int(x) for x in xs):
        xs = [int(x) for x in xs]
    kind = draw(st.sampled_from(["line", "line+", "any"]))
    a, b = draw(st.floats(-5, 5)), draw(st.floats(-20, 20))
    if kind == "any":
        ys = draw(st.lists(st.floats(-30, 30), min_size=n, max_size=n))
    else:
        ys = [a * x + b for x in xs]
        if kind == "line+":
            ys = [y + draw(st.floats(-2, 2)) for y in ys]
    return dict(xs=xs, ys=ys, t=draw(st.floats(-40, 60) | st.sampled_from([0.0, -27.6])), inc=draw(st.sampled_from([1.0, 1.0, 0.3, 3.0, 10.0, 40.0, 200.0, 0.1]) | st.floats(0.1, 1000)),
                py=draw(st.floats(-20, 20)), slope=draw(st.floats(-5, 5)), arr=draw(st.booleans()))


PROP = Prop(
    id="C23",
    rule="Cases are random point sets (2-24 points, at least two distinct abscissae; exact lines, scattered lines, anything), targets and "
         "cost increases; non-trivial when there are more than two points and a residual. Oracle: the closed form of the constrained "
         "least-squares problem.",
    assumptions=["data of magnitude up to about 50 (the iterative solver's tolerance is absolute)", "ranges compared to 2e-4 of their half width"],
    subs=[Sub("ranges", check_ranges, data(), quick=1500, thorough=30000),
          Sub("fits", check_fits, data(), quick=4000, thorough=80000)],
)
