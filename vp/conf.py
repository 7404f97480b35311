"""Generators of honeycomb configurations."""
from hypothesis import strategies as st

from .refmodel import STYLES, geo


def layout(case, noise=None):
    from honeycomb_layout import HoneycombLayout
    return HoneycombLayout(data_width=case["w"], data_height=case["h"], sub_rounds=case["n"],
                           style=case["style"], obs=case["obs"],
                           noise=case.get("noise", 0) if noise is None else noise)


def g_of(case):
    return geo(case["w"], case["h"])


def fix_n(style, n):
    return max(3, n - n % 3) if style == "SI1000" else max(1, n)


def make(w, h, n, style, obs, noise=0):
    return dict(w=w, h=h, n=fix_n(style, n), style=style, obs=obs, noise=noise)


@st.composite
def configs(draw, max_vol=6000, max_tw=12, max_th=6, max_n=80, styles=tuple(STYLES), noises=(0,), min_n=1,
            min_tw=1, min_th=1):
    style = draw(st.sampled_from(styles))
    obs = draw(st.sampled_from("HV"))
    th = draw(st.integers(min_th, max_th))
    tw = draw(st.integers(min_tw, max_tw))
    while 12 * tw * th * max(min_n, 3) > max_vol and (tw > min_tw or th > min_th):
        if tw > min_tw and (tw >= th or th == min_th):
            tw = max(min_tw, tw // 2)
        else:
            th = max(min_th, th // 2)
    cap = max(min_n, 3, min(max_n, max_vol // (12 * tw * th)))
    n = draw(st.integers(min_n, cap))
    noise = draw(st.sampled_from(noises)) if len(noises) > 1 else noises[0]
    return make(2 * tw, 6 * th, n, style, obs, noise)


@st.composite
def long_runs(draw, max_n, sizes=((2, 6), (2, 6), (2, 12), (4, 6)), styles=tuple(STYLES)):
    """Small layouts run for very many sub-rounds (log-uniform)."""
    import math
    w, h = draw(st.sampled_from(sizes))
    n = int(10 ** draw(st.floats(2, math.log10(max_n)))) + draw(st.integers(0, 5))
    return make(w, h, n, draw(st.sampled_from(styles)), draw(st.sampled_from("HV")))


def grid(sizes, ns, styles=tuple(STYLES), noises=(0,)):
    seen = set()
    for (w, h) in sizes:
        for style in styles:
            for obs in "HV":
                for n in ns:
                    for noise in noises:
                        c = make(w, h, n, style, obs, noise)
                        key = tuple(sorted(c.items()))
                        if key not in seen:
                            seen.add(key)
                            yield c


def classes(case, ctx):
    ctx.label(case["style"], f"obs {case['obs']}", f"n%6={case['n'] % 6}",
              "long" if case["n"] >= 24 else "short",
              "wide" if case["w"] > 8 else "narrow", "tall" if case["h"] > 6 else "one tile high")
