import math
from fractions import Fraction

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, close


def check(case, ctx):
    from collect_data import ShotData
    n, e, sec = case["shots"], min(case["errors"], case["shots"]), case["seconds"]
    ms, me, cut = case["max_shots"], case["max_errors"], case["cut"]
    with sut("estimating remaining work"):
        sd = ShotData(n, n - e, sec)
        rw = sd.remaining_work(ms, me, cut) if case["positional"] else sd.remaining_work(max_shots=ms, max_errors=me, threshold_circuit_breaker=cut)
        got = (rw.finished, rw.remaining_shots, rw.remaining_errors, rw.remaining_time)
        again = (rw.finished, rw.remaining_shots, rw.remaining_errors, rw.remaining_time)
    require(got == again, "asking twice gives %r then %r", got, again)
    require((sd.num_shots, sd.num_correct, sd.total_processing_seconds) == (n, n - e, sec), "the data was changed")
    if n and Fraction(cut) != Fraction(e, n) and abs(e / n - cut) < 1e-12:
        ctx.label("within rounding of the cut-off")
        return
    rate = 1.0 if n == 0 else e / n
    reached = n >= 10 and rate >= cut
    done = n >= ms or e >= me or reached
    why = "shots" if n >= ms else "errors" if e >= me else "rate" if reached else "open"
    ctx.label(why)
    fin, rs, re_, rt = got
    require(bool(fin) == done, "finished=%r with %d/%d shots, %d/%d errors, cut-off %r", fin, n, ms, e, me, cut)
    if done:
        require(rs == 0 and re_ == 0 and rt == 0, "finished but %r, %r, %r remain", rs, re_, rt)
        ctx.mark(why == "rate")
        return
    require(rs == ms - n and rs > 0, "%r shots remain of %d - %d", rs, ms, n)
    require(re_ == me - e and re_ > 0, "%r errors remain of %d - %d", re_, me, e)
    ts = []
    if n:
        ts.append(float(Fraction(ms - n) * Fraction(sec) / n))
    if e:
        ts.append(float(Fraction(me - e) * Fraction(sec) / e))
    want = min(ts, default=math.inf)
    require(close(float(rt), want, 1e-9, 1e-300), "%r seconds remain, extrapolated %r", rt, want)
    ctx.mark()
    ctx.label("no data" if not n else "no errors" if not e else "both extrapolations")


@st.composite
def cases(draw):
    big = draw(st.sampled_from([12, 100, 10 ** 4, 10 ** 9]))
    n = draw(st.integers(0, big) | st.sampled_from([0, 8, 9, 10, 11]))
    e = draw(st.integers(0, n) | st.sampled_from([0, n, n // 2]))
    if draw(st.integers(0, 3)) == 0:
        n = 2 ** draw(st.integers(0, 20))
        e = draw(st.integers(0, n))
    cut = draw(st.sampled_from([0.4, 0.48, 0.5, 0.1, 1.0, 2.0]) | st.floats(0, 1) | st.just(e / n if n else 0.5))
    near = lambda v: st.integers(max(0, v - 2), v + 2)
    return dict(shots=n, errors=e, seconds=draw(st.sampled_from([0, 0.0, 1, 2.5]) | st.floats(0, 1e9)), cut=cut,
                max_shots=draw(near(n) | st.integers(0, 2 * big) | st.integers(n + 1, n + big)),
                max_errors=draw(near(e) | st.integers(0, 2 * big) | st.integers(e + 1, e + big)),
                positional=draw(st.booleans()))


PROP = Prop(
    id="C31",
    rule="Cases are totals and limits concentrated around equality (shots, errors and cut-off one below, at, one above; 8-11 shots); "
         "non-trivial when unfinished, or finished by the error-rate cut-off alone. Oracle: the stopping rule and exact rational extrapolation.",
    subs=[Sub("remaining work", check, cases(), quick=20000, thorough=400000)],
)
