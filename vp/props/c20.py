import copy

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, close
from .. import collect as cl, scripts
from .c19 import close_descs, rows as plain_rows

SCRIPT = "paper/aggregate_csv_data.py"


def dataset(case):
    from collect_data import ProblemShotData, ShotData
    data = {}
    for di, sh, co, sec in case["rows"]:
        d = case["descs"][di % len(case["descs"])]
        data[cl.desc_of(d)] = ShotData(num_shots=sh, num_correct=min(co, sh), total_processing_seconds=sec)
    return ProblemShotData(data)


def snapshot(data):
    return [(cl.key_of_desc(k), v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()]


def key_fn(fields):
    if len(fields) == 1:
        return lambda e: getattr(e, fields[0])
    if fields == ["*noise"]:
        return lambda e: e.with_changes(noise=0)
    return lambda e: tuple(getattr(e, f) for f in fields)


def check_ops(case, ctx):
    data = dataset(case)
    before = snapshot(data)
    fields = case["fields"]
    key = (lambda e: e.with_changes(noise=0)) if fields == "desc" else key_fn(fields)
    with sut("grouping"):
        groups = data.grouped_by(key)
    require(list(groups) == sorted(groups), "groups are not ordered by key")
    seen = []
    for k, g in groups.items():
        require(len(g.data) > 0, "empty group %r", k)
        for d, v in g.data.items():
            require(key(d) == k, "entry %r in group %r", d, k)
            seen.append((cl.key_of_desc(d), v.num_shots, v.num_correct, v.total_processing_seconds))
    require(sorted(seen) == sorted(before), "grouping lost or duplicated entries")
    require(snapshot(data) == before, "grouping modified the data")
    with sut("merging"):
        merged = data.merged_by(key)
    require(list(merged) == sorted(merged), "merged entries are not ordered by key")
    want = {}
    for d, v in data.data.items():
        a = want.setdefault(key(d), [0, 0, 0.0])
        a[0] += v.num_shots
        a[1] += v.num_correct
        a[2] += v.total_processing_seconds
    require(set(merged) == set(want), "merged keys differ")
    for k, (sh, co, sec) in want.items():
        m = merged[k]
        require((m.num_shots, m.num_correct) == (sh, co) and close(m.total_processing_seconds, sec, 1e-9, 1e-12),
                "merged %r is %r, expected %r", k, m, (sh, co, sec))
        require(m.num_errors == sh - co, "merged %r has %r errors", k, m.num_errors)
        require(close(m.logical_error_rate, (sh - co) / sh if sh else 1, 1e-12), "merged %r has rate %r", k, m.logical_error_rate)
    require(snapshot(data) == before, "merging modified the data")
    with sut("merging again"):
        again = data.merged_by(key)
    require([(k, v.num_shots, v.num_correct) for k, v in again.items()] == [(k, v.num_shots, v.num_correct) for k, v in merged.items()],
            "merging twice differs")
    # filtering
    f, pivot = case["by"]
    vals = sorted({getattr(d, f) for d in data.data}) or [0]
    cut = vals[pivot % len(vals)]
    pred = (lambda e: getattr(e, f) == cut) if case["eq"] else (lambda e: getattr(e, f) >= cut)
    with sut("filtering"):
        kept = data.filter(pred)
        rest = data.filter(lambda e: not pred(e))
    require(snapshot(kept) == [b for b, d in zip(before, data.data) if pred(d)], "filter keeps other entries than the matching ones")
    require(sorted(snapshot(kept) + snapshot(rest)) == sorted(before), "filter and its complement do not partition the data")
    require(snapshot(data) == before, "filtering modified the data")
    ctx.mark(len(before) > 2 and 1 < len(groups) <= len(before))
    ctx.label("collapsing" if len(groups) < len(before) else "one entry per group")


def check_changes(case, ctx):
    """Descriptions derived from others, and grouping by them."""
    d, ch = case["desc"], case["changes"]
    a = cl.desc_of(d)
    with sut("changing a description"):
        b = a.with_changes(**ch)
    want = cl.desc_of({**d, **ch})
    require(cl.key_of_desc(b) == cl.key_of_desc({**d, **ch}), "changing %r gives %r", ch, b)
    require(cl.key_of_desc(a) == cl.key_of_desc(d), "the original description changed")
    require(b == want and hash(b) == hash(want) and not b < want and (a == b) == (cl.key_of_desc(a) == cl.key_of_desc(b)) and a != "x",
            "equality of %r and %r", a, b)
    require((a < b) == (tuple(d[f] for f in NAMES) < tuple({**d, **ch}[f] for f in NAMES)), "order of %r and %r", a, b)
    data = dataset(case)
    with sut("merging"):
        merged = data.merged_by(lambda e: e.with_changes(**ch))
    sums = {}
    for e, v in data.data.items():
        t = sums.setdefault(cl.key_of_desc({**{f: getattr(e, f) for f in NAMES}, **ch}), [0, 0])
        t[0] += v.num_shots
        t[1] += v.num_correct
    require({cl.key_of_desc(k): [v.num_shots, v.num_correct] for k, v in merged.items()} == sums, "merging over %r gives other totals", sorted(ch))
    ctx.mark(len(ch) > 0)
    ctx.label(f"{min(len(ch), 4)} fields", "falsy values" if any(not v for v in ch.values()) else "plain values")


def check_script(case, ctx):
    want = {}
    with cl.scratch() as root:
        args = []
        for i, f in enumerate(case["files"]):
            d = root / f["dir"] if f["dir"] else root
            d.mkdir(parents=True, exist_ok=True)
            p = d / f"{f['name']}{f['ext']}"
            if p.exists():
                p = d / f"{f['name']}{i}{f['ext']}"
            lines = [",".join(cl.FIELDS)]
            counted = f["ext"] == ".csv" or not f["dir"]
            for di, sh, co, sec in f["rows"] * case.get("times", 1):
                de = case["descs"][di % len(case["descs"])]
                co = min(sh, co)
                rec = dict(de, num_shots=sh, num_correct=co, total_processing_seconds=sec, version=2)
                lines.append(",".join(str(rec[c]) for c in cl.FIELDS))
                if counted:
                    a = want.setdefault(cl.key_of_desc(de), [0, 0, 0.0])
                    a[0] += sh
                    a[1] += co
                    a[2] += sec
            p.write_text("\n".join(lines) + "\n")
            if not f["dir"]:
                args.append(p)
            else:
                top = root / f["dir"].split("/")[0]
                if top not in args:
                    args.append(top)
        with sut("aggregating"):
            text = scripts.main_output(SCRIPT, args)
        heads, rs = cl.parse_csv(text)
        require(heads == 1, "%d header lines", heads)
        keys = [cl.key_of_desc(r) for r in rs]
        require(len(set(keys)) == len(keys), "a problem has several rows")
        require(keys == sorted(keys), "rows are not sorted")
        require(set(keys) == set(want), "rows for %d problems, expected %d", len(keys), len(want))
        for r, k in zip(rs, keys):
            sh, co, sec = want[k]
            require((int(r["num_shots"]), int(r["num_correct"])) == (sh, co) and close(float(r["total_processing_seconds"]), sec, 1e-9, 1e-12),
                    "%r: aggregated %r, expected %r", k, (r["num_shots"], r["num_correct"], r["total_processing_seconds"]), (sh, co, sec))
        out = root / "agg.csv"
        out.write_text(text)
        with sut("aggregating the aggregate"):
            again = scripts.main_output(SCRIPT, [out])
        require(again == text, "aggregating the aggregate changes it")
    ctx.mark(len(want) > 1 and sum(len(f["rows"]) for f in case["files"]) > len(want))
    ctx.label("thousands of rows" if case.get("times", 1) > 1 else "few rows", "directories" if any(f["dir"] for f in case["files"]) else "files only", "nested" if any("/" in f["dir"] for f in case["files"]) else "flat")


NAMES = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]
count = st.integers(0, 10 ** 9) | st.integers(2 ** 53, 2 ** 63)     # counts are exact however large
many = st.lists(st.tuples(st.integers(0, 20), count, count, st.floats(0, 1e6)).map(list), max_size=12)
rows = plain_rows | many


@st.composite
def desc_set(draw):
    a = draw(close_descs())
    return a + draw(st.lists(cl.descs(), max_size=6))


@st.composite
def ops(draw):
    return dict(descs=draw(desc_set()), rows=draw(many), fields=draw(st.just("desc") | st.lists(st.sampled_from(NAMES), max_size=3, unique=True)),
                by=[draw(st.sampled_from(NAMES)), draw(st.integers(0, 9))], eq=draw(st.booleans()))


@st.composite
def agg(draw):
    files = [dict(dir=draw(st.sampled_from(["", "", "d1", "d1/sub", "d2/x/y", "d2"])), name=draw(st.sampled_from("abz")),
                  ext=draw(st.sampled_from([".csv", ".csv", ".csv", ".txt"])), rows=draw(rows)) for _ in range(draw(st.integers(1, 5)))]
    return dict(descs=draw(desc_set()), files=files)


VALUES = {f: st.sampled_from([0, 1, 4, 6, 12]) for f in NAMES[:5]}
VALUES.update(noise=st.sampled_from([0, 0.0, 0.001, 0.5]), circuit_style=st.sampled_from(["", "honeycomb_SD6", "surface_SD6"]),
              preserved_observable=st.sampled_from(["", "H", "V", "X"]), decoder=st.sampled_from(["", "internal", "pymatching"]))


@st.composite
def changes(draw):
    ds = draw(desc_set())
    return dict(desc=ds[0], descs=ds, rows=draw(many), changes={f: draw(VALUES[f]) for f in draw(st.lists(st.sampled_from(NAMES), max_size=9, unique=True))})


@st.composite
def long_agg(draw):
    """Files of thousands of rows."""
    return dict(draw(agg()), times=draw(st.sampled_from([300, 1000, 3000])))


PROP = Prop(
    id="C20",
    rule="Cases are random data sets (descriptions differing in few fields) with random key functions and filters, and random "
         "trees of CSV files given to the aggregation script; non-trivial when there are several groups, or several rows per problem. "
         "Oracle: dictionary sums.",
    assumptions=["text fields contain no commas"],
    subs=[Sub("group, merge, filter", check_ops, ops(), quick=8000, thorough=150000),
          Sub("changed descriptions", check_changes, changes(), quick=3000, thorough=40000),
          Sub("aggregation script", check_script, agg(), quick=2500, thorough=40000),
          Sub("aggregating thousands of rows", check_script, long_agg(), quick=40, thorough=800)],
)
