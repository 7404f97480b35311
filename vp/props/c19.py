import math
import os

from hypothesis import strategies as st

from ..core import Prop, Sub, require, sut, close, Violation
from .. import collect as cl


def run_history(case, ctx):
    from collect_data import collect_simulated_experiment_data, DecodingProblem, read_recorded_data
    descs = case["descs"]
    circuits = [cl.tag_circuit(i) for i in range(len(descs))]
    with cl.scratch() as root:
        files = {}          # name -> None (absent) or list of (desc key, shots, correct)
        for f in case["files"]:
            files[f["name"]] = None
            p = root / f["name"]
            if f["state"] == "empty":
                p.write_text("")
                files[f["name"]] = []
            elif f["state"] == "header":
                p.write_text(",".join(cl.FIELDS) + "\n")
                files[f["name"]] = []
            elif f["state"] == "data":
                lines = [",".join(cl.FIELDS)]
                files[f["name"]] = []
                for di, sh, co, sec in f["rows"]:
                    d = descs[di % len(descs)]
                    co = min(co, sh)
                    lines.append(",".join(str(v) for v in [d["data_width"], d["data_height"], d["rounds"], d["noise"], d["circuit_style"],
                                                           d["preserved_observable"], d["code_distance"], d["num_qubits"], sh, co, sec, d["decoder"], 2]))
                    files[f["name"]].append((cl.key_of_desc(d), sh, co, sec))
                p.write_text("\n".join(lines) + "\n")
        interrupted = rows_total = 0
        for op in case["ops"]:
            name = sorted(files)[op["file"] % len(files)]
            path = root / name
            model = files[name]
            old = model
            if op["discard"] or model is None:
                model = []
            files[name] = model
            fresh = []      # rows the run must add
            state = dict(n=0)
            probs = [(descs[i % len(descs)], circuits[i % len(descs)]) for i in op["problems"]]
            cut = op["cut"]

            def verify_disk(final=False):
                text = path.read_text() if path.exists() else ""
                headers, rows = cl.parse_csv(text)
                require(headers == 1, "%s has %d header lines", name, headers)
                want = model + fresh
                require(len(rows) == len(want), "%s holds %d rows, %d batches are complete%s", name, len(rows), len(want),
                        "" if final else " when the next one starts")
                for r, (k, sh, co, sec) in zip(rows, want):
                    require(cl.key_of_desc(r) == k, "row describes %r, expected %r", cl.key_of_desc(r), k)
                    require(int(r["num_shots"]) == sh and int(r["num_correct"]) == co, "row has %s/%s shots, expected %d/%d",
                            r["num_correct"], r["num_shots"], co, sh)
                    s = float(r["total_processing_seconds"])
                    require(s >= 0 and s < 3600 * 24 or sec is not None, "row took %r seconds", s)
                    require(sec is None or s == sec, "row's seconds changed")

            cur = dict(i=None)

            def on_call(circuit, shots, decoder):
                verify_disk()
                if cut is not None and cut["where"] == "sampling" and state["n"] == cut["batch"]:
                    raise cl.Interrupted()

            def errors_of(k, circuit, shots):
                i = circuits.index(circuit)
                e = min(shots, int(op["errors"][k % len(op["errors"])] * shots))
                fresh_key = cl.key_of_desc(descs[i])
                # completed from the loop's point of view once we return
                pend.append((fresh_key, shots, shots - e, None))
                state["n"] += 1
                return e
            pend = []

            class Stub(cl.Scripted):
                def __call__(self, **kw):
                    fresh.extend(pend)
                    pend.clear()
                    return super().__call__(**kw)
            stub = Stub(errors_of, limit=400, on_call=on_call)

            def maker(c):
                def f():
                    if cut is not None and cut["where"] == "making" and state["n"] == cut["batch"]:
                        raise cl.Interrupted()
                    return c
                return f
            problems = [DecodingProblem(cl.desc_of(d), maker(c)) for d, c in probs]
            at_open = None
            with cl.scripted(stub), cl.quiet() as printed, cl.cut_open(root, cut) as opened:
                try:
                    with sut("collecting"):
                        collect_simulated_experiment_data(
                            problems, min_shots=op["min"], max_shots=op["max"], max_batch=op["batch"],
                            min_seen_logical_errors=op["min_errors"], out_path=str(path), discard_previous_data=op["discard"])
                except cl.Interrupted:
                    interrupted += 1
                    at_open = opened["hit"]
            fresh.extend(pend)
            pend.clear()
            if at_open:
                # killed while (re)opening the file: at most the batch in flight may be missing, nothing else
                ctx.label("killed at " + cut["where"])
                text = path.read_text() if path.exists() else ""
                headers, rows = cl.parse_csv(text)
                want = model + fresh
                require(headers == 1 or not rows, "rows without a header after a crash")
                got = [(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in rows]
                if op["discard"] and not fresh and old and got == [x[:3] for x in old]:
                    files[name] = old     # killed before the old data was discarded
                    continue
                lost_ok = len(want) - (1 if fresh else 0)
                require(len(got) in (lost_ok, len(want)) and got == [x[:3] for x in want][:len(got)],
                        "crash at %s #%d left %d of %d rows", cut["where"], cut["batch"], len(got), len(want))
                files[name] = want[:len(got)] if path.exists() else None
                rows_total += len(got) - len(model)
                continue
            verify_disk(final=True)
            phead, prow = cl.parse_csv(printed.getvalue())
            require(phead == 1 and [(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in prow]
                    == [x[:3] for x in fresh], "printed rows differ from the completed batches")
            files[name] = model + fresh
            rows_total += len(fresh)
        # read everything back
        exist = [n for n in sorted(files) if files[n] is not None]
        order = exist if not case["reverse"] else exist[::-1]
        want = {}
        raw = {}
        for n in order:
            _, rows = cl.parse_csv((root / n).read_text())
            for (k, sh, co, _), r in zip(files[n], rows):
                a = want.setdefault(k, [0, 0, 0.0])
                a[0] += sh
                a[1] += co
                a[2] += float(r["total_processing_seconds"])
        if order:
            with sut("reading back"):
                data = read_recorded_data(*[str(root / n) if i % 2 else root / n for i, n in enumerate(order)])
            got = {cl.key_of_desc(k): v for k, v in data.data.items()}
            require(len(got) == len(data.data), "two entries for one description")
            require(set(got) == set(want), "descriptions read back differ: %r", sorted(set(got) ^ set(want))[:2])
            for k, (sh, co, sec) in want.items():
                v = got[k]
                require(v.num_shots == sh and v.num_correct == co, "%r: read back %r/%r, recorded %d/%d", k, v.num_correct, v.num_shots, co, sh)
                require(close(v.total_processing_seconds, sec, 1e-9, 1e-9), "%r: read back %r seconds, recorded %r", k, v.total_processing_seconds, sec)
        ctx.mark(rows_total > 1 and len(case["ops"]) > 1)
        ctx.label(*(["interrupted"] if interrupted else ["complete"]), f"{min(len(order), 3)} files",
                  "discard" if any(o["discard"] for o in case["ops"]) else "append only")
        for f in case["files"]:
            ctx.label("file " + f["state"])


def check_read(case, ctx):
    """Hand-written files: any column order, repeated descriptions, several files."""
    from collect_data import read_recorded_data
    want = {}
    with cl.scratch() as root:
        paths = []
        for fi, f in enumerate(case["files"]):
            cols = [cl.FIELDS[i] for i in f["cols"]]
            lines = [",".join(cols)]
            for di, sh, co, sec in f["rows"] * case.get("times", 1):
                d = case["descs"][di % len(case["descs"])]
                co = min(sh, co)
                rec = dict(d, num_shots=sh, num_correct=co, total_processing_seconds=sec, version=2)
                lines.append(",".join(str(rec[c]) for c in cols))
                a = want.setdefault(cl.key_of_desc(d), [0, 0, 0.0])
                a[0] += sh
                a[1] += co
                a[2] += sec
            p = root / f"f{fi}.csv"
            p.write_text(f["eol"].join(lines) + f["eol"])
            paths.append(str(p))
        with sut("reading"):
            data = read_recorded_data(*paths)
    got = {cl.key_of_desc(k): v for k, v in data.data.items()}
    require(set(got) == set(want) and len(got) == len(data.data), "descriptions read differ")
    for k, (sh, co, sec) in want.items():
        v = got[k]
        require((v.num_shots, v.num_correct) == (sh, co) and close(v.total_processing_seconds, sec, 1e-9, 1e-12),
                "%r: read %r, recorded %r", k, v, (sh, co, sec))
        require(v.num_errors == sh - co, "%r: %r errors of %d", k, v.num_errors, sh - co)
    ctx.label("thousands of rows" if case.get("times", 1) > 1 else "few rows")
    ctx.mark(len(want) > 1 and sum(len(f["rows"]) for f in case["files"]) > len(want))


@st.composite
def close_descs(draw):
    """Descriptions differing in as little as one field."""
    base = draw(cl.descs())
    out = [base]
    for _ in range(draw(st.integers(0, 4))):
        d = dict(draw(st.sampled_from(out)))
        other = draw(cl.descs())
        k = draw(st.sampled_from(sorted(d)))
        d[k] = other[k]
        if d not in out:
            out.append(d)
    return out


rows = st.lists(st.tuples(st.integers(0, 5), st.integers(1, 10 ** 9), st.integers(0, 10 ** 9), st.floats(0, 1e6)).map(list), max_size=5)


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(["a.csv", "b.csv", "out file.csv"]), min_size=1, max_size=3, unique=True))
    files = [dict(name=n, state=draw(st.sampled_from(["absent", "absent", "empty", "header", "data"])), rows=draw(rows)) for n in names]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        mn = draw(st.integers(1, 40))
        cut = None
        if draw(st.integers(0, 1)) == 0:
            cut = dict(where=draw(st.sampled_from(["sampling", "making", "open before", "open after"])), batch=draw(st.integers(0, 6)))
        ops.append(dict(file=draw(st.integers(0, 2)), discard=draw(st.integers(0, 4)) == 0, problems=draw(st.lists(st.integers(0, 4), max_size=4)),
                        min=mn, max=draw(st.integers(1, 400)), batch=draw(st.sampled_from([None, 7, 20, 100])), min_errors=draw(st.integers(0, 30)),
                        errors=draw(st.lists(st.sampled_from([0.0, 0.1, 0.5, 1.0, 0.03]), min_size=1, max_size=5)), cut=cut))
    return dict(descs=draw(close_descs()), files=files, ops=ops, reverse=draw(st.booleans()))


@st.composite
def hand(draw):
    files = [dict(cols=draw(st.permutations(range(len(cl.FIELDS)))) if draw(st.booleans()) else list(range(len(cl.FIELDS))),
                  rows=draw(rows), eol=draw(st.sampled_from(["\n", "\n", "\r\n"]))) for _ in range(draw(st.integers(1, 3)))]
    return dict(descs=draw(close_descs()), files=files)


@st.composite
def long_hand(draw):
    """Files of thousands of rows."""
    return dict(draw(hand()), times=draw(st.sampled_from([300, 1000, 3000])))


PROP = Prop(
    id="C19",
    rule="Cases are histories of collection runs (1-5 runs over 1-3 absent, empty, header-only or filled files, appending or "
         "discarding, interrupted while making a circuit, sampling, or just before/after opening the file at any batch, or not) checked against the file contents before "
         "every batch and after every run, then read back; non-trivial when several runs wrote more than one row. Oracle: a list model "
         "of the rows.",
    assumptions=["the sampler is replaced by scripted results", "an interruption strikes between file operations, not inside the write of a row",
                 "text fields contain no commas or quotes (as in all descriptions the code makes)"],
    subs=[Sub("histories", run_history, histories(), quick=3000, thorough=80000),
          Sub("reading", check_read, hand(), quick=1500, thorough=30000),
          Sub("reading thousands of rows", check_read, long_hand(), quick=40, thorough=800)],
)
