import contextlib
import io
import pathlib
import sys
from unittest import mock

from hypothesis import strategies as st

from ..boot import SRC
from ..core import Prop, Sub, require, sut, rejects
from .. import collect as cl, scripts
from . import c18, c19

SCRIPT = "paper/main_collect_all.py"
STORED = SRC / "paper" / "surface_code_circuits"


def run_main(mod, argv, root):
    err = io.StringIO()
    with mock.patch.object(sys, "argv", ["main_collect_all.py"] + argv), cl.quiet() as out, contextlib.redirect_stderr(err), \
            contextlib.chdir(root):
        mod.main()
    return out.getvalue()


def argv_of(opts, path):
    out = []
    for k in ("surface_code_problems_directory", "problem_id", "case_reduction", "max_shots", "max_errors", "max_batch_size"):
        if opts.get(k) is not None:
            out += [f"--{k}={opts[k]}"] if opts["equals"] else [f"--{k}", str(opts[k])]
    if path is not None:
        out += ["--out_file", str(path)]
    return out


def limits(opts):
    red = opts.get("case_reduction") or 1
    pick = lambda k, d: d if opts.get(k) is None else opts[k]
    return dict(min_shots=25, max_shots=pick("max_shots", 10 ** 8 // red), max_batch=pick("max_batch_size", 2 ** 15),
                min_errors=pick("max_errors", 10 ** 3 // red), max_sd=1)


def check_script(case, ctx):
    """The script over a stand-in problem list: which problems run, with which limits, into which file."""
    from collect_data import DecodingProblem
    mod = scripts.load(SCRIPT)
    nh, ns = case["honeycomb"], case["surface"]
    descs = [dict(d, rounds=100 + i) for i, d in enumerate((case["descs"] * 10)[:nh + ns])]
    circuits = [cl.tag_circuit(i) for i in range(nh + ns)]
    probs = [DecodingProblem(cl.desc_of(d), lambda c=c: c) for d, c in zip(descs, circuits)]
    asked = []

    def surface(directory, *a, **k):
        asked.append(directory)
        return [] if directory in ("-", "", None) else probs[nh:]

    with cl.scratch() as root, mock.patch.object(mod, "honeycomb_problems", lambda: list(probs[:nh])), \
            mock.patch.object(mod, "surface_code_problems", surface):
        path = root / "out.csv"
        model = []
        if case["existing"]:
            path.write_text(",".join(cl.FIELDS) + "\n" + ",".join(str(x) for x in [
                1, 2, 3, 0.5, "honeycomb_SD6", "H", 4, 5, 100, 93, 2.5, "pymatching", 2]) + "\n")
            model.append(((1, 2, 4, 5, 3, 0.5, "honeycomb_SD6", "H", "pymatching"), 100, 93))
        for opts in case["runs"]:
            avail = nh + (0 if opts.get("surface_code_problems_directory") in ("-",) else ns)
            pid = opts.get("problem_id")
            ids = list(range(avail)) if pid is None else [pid]
            bad = pid is not None and pid >= avail
            lim = limits(opts)
            want, skip = [], False
            for i in ([] if bad else ids):
                sizes, errs, amb = c18.plan(c18.script_of(dict(rates=opts["rates"])), **lim)
                skip |= amb
                want += [(cl.key_of_desc(descs[i]), s, s - e) for s, e in zip(sizes, errs)]
            if skip or len(want) > 2500:
                ctx.label("long run skipped")
                continue
            seen = {}

            def errors_of(k, circuit, shots):
                i = circuits.index(circuit)
                seen[i] = seen.get(i, 0) + 1
                return c18.script_of(dict(rates=opts["rates"]))(seen[i] - 1, shots)
            stub = cl.Scripted(errors_of, limit=4000)
            out = path if opts["file"] else None
            with cl.scripted(stub):
                if bad:
                    rejects(lambda: run_main(mod, argv_of(opts, out), root), f"problem {pid} of {avail}")
                    ctx.label("no such problem")
                else:
                    with sut("running the script with %r" % (argv_of(opts, out),)):
                        printed = run_main(mod, argv_of(opts, out), root)
                    got = [(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in cl.parse_csv(printed)[1]]
                    require(got == want, "script printed %r..., expected %r... with %r", got[:4], want[:4], opts)
                    if len(want) > 1:
                        ctx.mark()
                    if out is not None:
                        model += want
            require(not stub.calls or not bad, "sampled for a problem that does not exist")
            d = asked[-1] if asked else None
            expect = opts.get("surface_code_problems_directory")
            if expect is None and asked:
                require(d is not None and pathlib.Path(d).resolve() == STORED.resolve(), "default surface circuits read from %r", d)
            elif asked:
                require(str(d) == expect, "surface circuits read from %r, asked for %r", d, expect)
            if path.exists():
                head, rows = cl.parse_csv(path.read_text())
                require(head == 1 or (head == 0 and not rows), "%d headers", head)
                require([(cl.key_of_desc(r), int(r["num_shots"]), int(r["num_correct"])) for r in rows] == model,
                        "file holds %d rows, expected %d", len(rows), len(model))
            else:
                require(not model, "no file written")
            require({p.name for p in root.iterdir()} <= {"out.csv"}, "unexpected files")
            ctx.label("one problem" if pid is not None else "all problems", *(k for k in ("case_reduction", "max_shots", "max_errors", "max_batch_size") if opts.get(k)))


_state = {}


def check_real(case, ctx):
    """One real problem by number: the circuit sampled and the row written are that problem's."""
    mod = scripts.load(SCRIPT)
    if "p" not in _state:
        with sut("listing problems"):
            _state["p"] = mod.honeycomb_problems() + mod.surface_code_problems(str(STORED))
    ps = _state["p"]
    i = case["id"] % len(ps)
    prob = ps[i]
    if prob.desc.code_distance > (8 if ctx.tier == "quick" else 20):
        i = min(k for k, p in enumerate(ps) if p.desc.code_distance <= 4 and p.desc.decoder == prob.desc.decoder
                and p.desc.circuit_style == prob.desc.circuit_style and p.desc.noise == prob.desc.noise
                and p.desc.preserved_observable == prob.desc.preserved_observable)
        prob = ps[i]
    want = prob.circuit_maker()
    stub = cl.Scripted(lambda k, c, shots: shots // 2, limit=50)
    with cl.scratch() as root, cl.scripted(stub):
        with sut("running the script"):
            run_main(mod, ["--problem_id", str(i), "--max_shots", str(case["shots"]), "--out_file", str(root / "o.csv")], root)
        _, rows = cl.parse_csv((root / "o.csv").read_text())
    require(rows and sum(int(r["num_shots"]) for r in rows) <= case["shots"], "rows %r", rows)
    for r in rows:
        require(cl.key_of_desc(r) == cl.key_of_desc(prob.desc), "problem %d recorded as %r, is %r", i, cl.key_of_desc(r), cl.key_of_desc(prob.desc))
    for c in stub.calls:
        require(c["circuit"] == want and c["decoder"] == prob.desc.decoder, "problem %d samples another circuit or decoder", i)
    ctx.mark()
    ctx.label(prob.desc.circuit_style)


@st.composite
def runs(draw):
    some = lambda s: draw(st.one_of(st.none(), s))
    return dict(surface_code_problems_directory=some(st.sampled_from(["-", "some/dir", str(STORED)])), problem_id=some(st.integers(0, 8)),
                case_reduction=some(st.sampled_from([1, 2, 10, 100, 1000, 3, 37, 99, 101, 999, 1001, 12345, 10 ** 5, 10 ** 6, 3 * 10 ** 6, 10 ** 7, 10 ** 8])), max_shots=some(st.sampled_from([1, 10, 25, 26, 49, 1000, 10 ** 5])),
                max_errors=some(st.sampled_from([0, 1, 10, 500])), max_batch_size=some(st.sampled_from([1, 10, 100, 2 ** 16])),
                equals=draw(st.booleans()), file=draw(st.integers(0, 3)) > 0,
                rates=draw(st.lists(st.sampled_from([0.0, 0.01, 0.1, 0.3, 0.47, 0.5, 1.0]), min_size=1, max_size=4)))


cases = st.fixed_dictionaries(dict(honeycomb=st.integers(0, 4), surface=st.integers(0, 3), descs=c19.close_descs(), existing=st.booleans(),
                                   runs=st.lists(runs(), min_size=1, max_size=3)))

PROP = Prop(
    id="C32",
    rule="Cases are one to three runs of the collection script's main with random command lines over a stand-in problem list and scripted "
         "batch results, and runs of single real problems by number; non-trivial when more than one batch is taken. Oracle: the selected "
         "problems, the reference stopping rule with the requested or default limits, and a list model of the output file.",
    assumptions=["the sampler is replaced by the script; problem lists are stand-ins except in the 'real' sub-check"],
    subs=[Sub("command lines", check_script, cases, quick=1500, thorough=30000),
          Sub("real problems", check_real, st.fixed_dictionaries(dict(id=st.integers(0, 10 ** 6), shots=st.sampled_from([10, 25, 100]))), quick=60, thorough=800)],
)
