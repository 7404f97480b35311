from hypothesis import strategies as st
import stim

from ..core import Prop, Sub, require, sut, rejects

KEYS = ["a", "b", "c", 0, "e1", "grp"]


def key_of(k):
    """Keys of various hashable kinds."""
    if isinstance(k, list):
        return tuple(key_of(x) for x in k)
    return {"c": 1 + 2j, "e1": ("1/2", 3j)}.get(k, k) if not isinstance(k, (int, float)) else k


class Model:
    def __init__(self):
        self.t = 0
        self.hist = {}

    def resolve(self, refs):
        """refs: [(key, back)] -> ("missing",) / None / set of absolute times."""
        vals = []
        for k, back in refs:
            h = self.hist.get(k, [])
            if back >= len(h):
                return "missing"
            vals.append(h[len(h) - 1 - back])
        if any(v is None for v in vals):
            return None
        count = {}
        for v in vals:
            for x in v:
                count[x] = count.get(x, 0) + 1
        return {x for x, n in count.items() if n % 2}


def build_ref(ref):
    """[key, [offsets]] -> nested Prev object (a list with no offsets is the bare key)."""
    from measure_tracker import Prev
    v = key_of(ref[0])
    for off in ref[1]:
        v = Prev(v) if off == 1 else Prev(v, offset=off)
    return v


def check(case, ctx):
    from measure_tracker import MeasurementTracker
    with sut("creating the tracker"):
        tr = MeasurementTracker()
    m = Model()
    stats = dict(q=0, none=0, back=0, cancel=0, missing=0, refused=0)

    def refs(raw):
        return [(key_of(r[0]), sum(r[1])) for r in raw]

    def query(raw, what):
        rs = refs(raw)
        want = m.resolve(rs)
        any_missing = any(b >= len(m.hist.get(k, [])) for k, b in rs)
        any_unknown = any(b < len(m.hist.get(k, [])) and m.hist[k][len(m.hist[k]) - 1 - b] is None for k, b in rs)
        if any_missing:
            if any_unknown:
                return None, "skip"     # both an unknown value and missing history: either reaction is fine
            stats["missing"] += 1
            rejects(lambda: tr.measurement_time_set(*[build_ref(r) for r in raw]), f"{what}: more history than exists")
            return None, "skip"
        stats["q"] += 1
        stats["none"] += want is None
        stats["back"] += any(b > 0 for _, b in rs)
        return want, None

    for step in case["steps"]:
        kind = step[0]
        if kind == "m":
            with sut("add_measurements"):
                tr.add_measurements(*[key_of(k) for k in step[1]])
            for k in step[1]:
                m.hist.setdefault(key_of(k), []).append({m.t})
                m.t += 1
        elif kind == "bulk":      # thousands of measurements, some at once and some one by one
            for _ in range(step[3]):
                with sut("add_measurements"):
                    tr.add_measurements(*[key_of(k) for k in step[1]] * step[2])
                for k in step[1] * step[2]:
                    m.hist.setdefault(key_of(k), []).append({m.t})
                    m.t += 1
        elif kind == "dummy":
            with sut("add_dummies"):
                tr.add_dummies(*[key_of(k) for k in step[1]], **({"obstacle": step[2]} if step[2] is not None else {}))
            for k in step[1]:
                m.hist.setdefault(key_of(k), []).append(None if step[2] else set())
        elif kind == "bad":
            from measure_tracker import Prev
            wrong = None if step[2] is None else Prev(key_of(step[2]))
            call = {"m": lambda: tr.add_measurements(wrong), "dummy": lambda: tr.add_dummies(wrong),
                    "obstacle": lambda: tr.add_dummies(wrong, obstacle=True), "g": lambda: tr.add_group(group_key=wrong)}[step[1]]
            rejects(call, f"{step[1]} recorded under {wrong!r}")
            stats["refused"] += 1
        elif kind == "g":
            want, skip = query(step[1], "add_group")
            if skip:
                continue
            with sut("add_group"):
                tr.add_group(*[build_ref(r) for r in step[1]], group_key=key_of(step[2]))
            m.hist.setdefault(key_of(step[2]), []).append(want)
        else:
            want, skip = query(step[1], kind)
            if skip:
                continue
            args = [build_ref(r) for r in step[1]]
            after = step[2]
            kw = {}
            base = m.t
            if after is not None and kind != "time":
                hk = m.hist.get(key_of(after), [])
                if not hk or hk[-1] is None or len(hk[-1]) != 1 or (want and max(want) > min(hk[-1])):
                    after = None
                else:
                    base = min(hk[-1]) + 1
                    kw = dict(for_time_after_measurement=key_of(after))
            if kind == "time":
                with sut("measurement_time_set"):
                    got = tr.measurement_time_set(*args)
                require((got is None) == (want is None) and (want is None or set(got) == want),
                        "time set of %r is %r, expected %r", step[1], got, want)
            elif kind == "rec":
                with sut("get_record_targets"):
                    got = tr.get_record_targets(*args, **kw)
                if want is None:
                    require(got is None, "records of an unknown value: %r", got)
                else:
                    require(got is not None and sorted(t.value for t in got) == sorted(x - base for x in want) and
                            all(t.is_measurement_record_target for t in got),
                            "records of %r are %r, expected times %r relative to %d", step[1], got, sorted(want), base)
            else:
                c = stim.Circuit()
                c.append("H", [0])
                pre = len(c)
                with sut("append_detector"):
                    tr.append_detector(*args, out_circuit=c, coords=step[3], **kw)
                if want is None:
                    require(len(c) == pre, "a detector was added for an unknown value")
                else:
                    require(len(c) == pre + 1 and c[pre].name == "DETECTOR", "no detector was added")
                    require(sorted(t.value for t in c[pre].targets_copy()) == sorted(x - base for x in want) and
                            c[pre].gate_args_copy() == [float(v) for v in step[3]],
                            "detector %s, expected times %r relative to %d", c[pre], sorted(want), base)
    # Every key, every depth, at the end.
    for k, h in list(m.hist.items()):
        from measure_tracker import Prev
        for back in range(len(h)) if len(h) <= 60 else [*range(20), *range(20, len(h), max(1, len(h) // 40)), len(h) - 1]:
            with sut("final look-back"):
                got = tr.measurement_time_set(Prev(k, offset=back))
            want = h[len(h) - 1 - back]
            require((got is None) == (want is None) and (want is None or set(got) == want),
                    "history of %r at depth %d is %r, expected %r", k, back, got, want)
        rejects(lambda: tr.measurement_time_set(Prev(k, offset=len(h))), "looking back before the first entry")
    ctx.mark(stats["q"] > 0 and m.t > 1)
    for s in stats:
        if stats[s]:
            ctx.label(s)


key = st.sampled_from(KEYS)
ref = st.tuples(key, st.lists(st.sampled_from([0, 1, 1, 2, 3]), max_size=3).filter(lambda l: sum(l) <= 4)).map(list)
refs = st.lists(ref, max_size=4)
step = st.one_of(
    st.tuples(st.just("m"), st.lists(key, min_size=1, max_size=4)).map(list),
    st.tuples(st.just("m"), st.lists(key, min_size=1, max_size=4)).map(list),
    st.tuples(st.just("dummy"), st.lists(key, min_size=1, max_size=3), st.sampled_from([None, False, True])).map(list),
    st.tuples(st.just("g"), refs, key).map(list),
    st.tuples(st.just("g"), refs, key).map(list),
    st.tuples(st.just("bad"), st.sampled_from(["m", "dummy", "obstacle", "g"]), st.none() | key).map(list),
    st.tuples(st.just("time"), refs, st.none()).map(list),
    st.tuples(st.just("rec"), refs, st.none() | key).map(list),
    st.tuples(st.just("det"), refs, st.none() | key, st.lists(st.integers(0, 5), max_size=3)).map(list),
)

@st.composite
def histories(draw):
    """A prefix gives every key some known, unknown or measured history so most later look-backs resolve."""
    pre = []
    for k in KEYS:
        for _ in range(draw(st.integers(0, 3))):
            pre.append(draw(st.sampled_from([["m", [k]], ["m", [k]], ["dummy", [k], False], ["dummy", [k], True]])))
    order = draw(st.permutations(range(len(pre))))
    return dict(steps=[pre[i] for i in order] + draw(st.lists(step, max_size=25)))


@st.composite
def long_histories(draw):
    """Bulk recordings of thousands of measurements between ordinary operations, with look-backs of any depth."""
    bulk = st.tuples(st.just("bulk"), st.lists(key, min_size=1, max_size=3), st.sampled_from([1, 1, 5, 40]),
                     st.sampled_from([1, 60, 130, 300, 900])).map(list)
    deep_ref = st.tuples(key, st.lists(st.sampled_from([0, 1, 2, 17, 64, 127, 128, 255, 256, 600]), max_size=2)).map(list)
    deep = st.lists(deep_ref | ref, max_size=4)
    deep_step = st.one_of(st.tuples(st.just("time"), deep, st.none()).map(list), st.tuples(st.just("g"), deep, key).map(list),
                          st.tuples(st.just("rec"), deep, st.none()).map(list))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        steps += [draw(bulk)] + draw(st.lists(deep_step | step, max_size=8))
    return dict(steps=steps)


PROP = Prop(
    id="C13",
    rule="Cases are operation histories (measure, dummy, obstacle, group, refused recording, query, record, detector) of up to 43 steps "
         "over six keys of different types; non-trivial when a query was answered after at least two measurements. "
         "Every answer, and every key at every depth at the end, is compared with a list-based model.",
    subs=[Sub("history", check, histories(), quick=16000, thorough=200000),
          Sub("long history", check, long_histories(), quick=300, thorough=5000)],
)
