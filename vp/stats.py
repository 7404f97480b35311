"""Reference statistics (independent of the code under test)."""
import math


def rel_loglik(n, e, x):
    """ln L(x/n) - ln L(e/n) for x expected errors out of n, e observed."""
    out = 0.0
    if e:
        if x <= 0:
            return -math.inf
        out += e * math.log1p((x - e) / e) if abs(x - e) < 0.5 * e else e * math.log(x / e)
    m = n - e
    if m:
        if x >= n:
            return -math.inf
        d = (e - x) / m
        out += m * math.log1p(d) if abs(d) < 0.5 else m * math.log((n - x) / m)
    return out


def bounds(n, e, ratio):
    """Exact ends (in expected errors) of the relative-likelihood interval."""
    t = math.log(ratio)

    def solve(a, b):
        # rel_loglik(a) >= t > rel_loglik(b)
        if rel_loglik(n, e, b) >= t:
            return b
        for _ in range(300):
            c = (a + b) / 2
            if rel_loglik(n, e, c) >= t:
                a = c
            else:
                b = c
        return (a + b) / 2
    return solve(float(e), 0.0), solve(float(e), float(n))


def slack(n, e, ratio, x):
    """Error in x caused by float rounding of log likelihoods of magnitude n ln n."""
    if x <= 0 or x >= n:
        return 0.0
    slope = abs(e / x - (n - e) / (n - x))
    noise = 4e-16 * (n + 10) * (math.log(n + 10) + abs(math.log(x / n)) + abs(math.log1p(-x / n)))
    return noise / slope if slope else math.inf


def per_piece(p, pieces):
    """Per-piece rate q with ((1 - 2q) ** pieces) = 1 - 2p (mirrored above one half)."""
    if p > 0.5:
        return 1 - per_piece(1 - p, pieces)
    if p == 0.5:
        return 0.5
    return -math.expm1(math.log1p(-2 * p) / pieces) / 2


def fit(xs, ys):
    n = len(xs)
    mx, my = math.fsum(xs) / n, math.fsum(ys) / n
    sxx = math.fsum((x - mx) ** 2 for x in xs)
    slope = math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return slope, my - slope * mx, mx, sxx


def output_range(xs, ys, target, inc):
    slope, icpt, mx, sxx = fit(xs, ys)
    h = math.sqrt(inc * (1 / len(xs) + (target - mx) ** 2 / sxx))
    y = icpt + slope * target
    return y - h, y, y + h


def slope_range(xs, ys, inc):
    slope, _, _, sxx = fit(xs, ys)
    h = math.sqrt(inc / sxx)
    return slope - h, slope, slope + h
