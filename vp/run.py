"""Entry point: runs one property's check in parallel shards, writes evidence, reports violations."""
from . import boot  # noqa: F401  (must be first)
import argparse
import importlib
import json
import os
import pathlib
import resource
import subprocess
import sys
import tempfile
import time
import traceback

from .core import Ctx, ShardRun, Violation

VERIF = boot.VERIF


def load(pid):
    return importlib.import_module(f"vp.props.{pid.lower()}").PROP


def worker(args):
    # Code under test that allocates without end fails in its own shard instead of taking the machine down.
    limit = (4 if args.tier == "quick" else 16) << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    prop = load(args.property)
    i, n = map(int, args.shard.split("/"))
    try:
        out = ShardRun(prop, args.tier, args.seed, i, n, args.budget).run()
    except Exception as e:
        e.__notes__ = []        # Hypothesis appends the whole case
        print("".join(traceback.format_exception(e))[-3000:])
        sys.exit(3)
    pathlib.Path(args.out).write_text(json.dumps(out, default=str))


def replay(args):
    prop = load(args.property)
    rec = json.loads(pathlib.Path(args.replay).read_text())
    sub = {s.name: s for s in prop.subs}[rec["check"]]
    try:
        sub.check(rec["case"], Ctx("quick"))
    except Violation as v:
        print(f"replayed: {v}")
        print(f"VIOLATION property={prop.id} replay={args.replay}")
        return 1
    print("replayed: the case no longer fails")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--budget", type=float, default=None, help="soft seconds per shard")
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.budget is None:
        args.budget = 420.0 if args.tier == "quick" else 6 * 3600.0
    if args.replay:
        return replay(args)
    if args.shard:
        worker(args)
        return 0

    t0 = time.monotonic()
    prop = load(args.property)
    ev_path = VERIF / "evidence" / f"{prop.id}.json"
    ev_path.parent.mkdir(exist_ok=True)
    ev_path.unlink(missing_ok=True)
    outs, violation, errors = [], None, []
    with tempfile.TemporaryDirectory(prefix="vp_") as tmp:
        procs = []
        for i in range(args.shards):
            out = pathlib.Path(tmp) / f"{i}.json"
            cwd = pathlib.Path(tmp) / f"w{i}"
            cwd.mkdir()
            log = open(pathlib.Path(tmp) / f"{i}.log", "w+")
            env = dict(os.environ, PYTHONPATH=str(VERIF), TMPDIR=str(cwd))
            p = subprocess.Popen(
                [sys.executable, "-B", "-m", "vp.run", prop.id, "--tier", args.tier, "--seed", str(args.seed),
                 "--shard", f"{i}/{args.shards}", "--budget", str(args.budget), "--out", str(out)],
                cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            procs.append((i, p, out, log))
        pending = list(procs)
        stop_at = None
        while pending:
            for item in list(pending):
                i, p, out, log = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if p.returncode == 0 and out.exists():
                    o = json.loads(out.read_text())
                    outs.append(o)
                    if o["violation"] and stop_at is None:
                        stop_at = time.monotonic() + 20
                else:
                    log.seek(0)
                    errors.append(f"shard {i} exit {p.returncode}:\n" + log.read()[-3000:])
            if stop_at is not None and time.monotonic() > stop_at:
                for _, p, _, _ in pending:
                    p.kill()
                    p.wait()
                break
            time.sleep(0.02)
        for _, _, _, log in procs:
            log.close()
    vs = [o["violation"] for o in outs if o["violation"]]
    if vs:
        violation = min(vs, key=lambda v: (len(json.dumps(v["case"], default=str)), json.dumps(v["case"], default=str)))
    merged = dict(evaluations=0, subs={}, labels={})
    hashes, samples, skipped = set(), [], 0
    for o in outs:
        merged["evaluations"] += o["evaluations"]
        skipped += o["skipped"]
        hashes.update(o["hashes"])
        for k in ("subs", "labels"):
            for a, b in o[k].items():
                merged[k][a] = merged[k].get(a, 0) + b
    for sub in prop.subs:
        got = [s for o in outs for s in o["samples"] if s["check"] == sub.name]
        samples += got[:2]
    evidence = dict(
        property=prop.id, tier=args.tier, seed=args.seed, level=prop.level,
        coverage=dict(
            evaluations=merged["evaluations"], distinct_nontrivial=len(hashes), rule=prop.rule, samples=samples,
            cases_per_subcheck=merged["subs"], classes=dict(sorted(merged["labels"].items())[:400]),
            not_run_for_time=skipped, slowest_case_cpu_s=round(max((o["slowest"] for o in outs), default=0), 1)),
        assumptions=prop.assumptions, wall_s=round(time.monotonic() - t0, 2),
        violations=1 if violation else 0)
    ev_path.write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    if violation:
        rdir = VERIF / "evidence" / "replays"
        rdir.mkdir(exist_ok=True)
        rpath = rdir / f"{prop.id}.json"
        rpath.write_text(json.dumps(dict(property=prop.id, check=violation["sub"], case=violation["case"],
                                         message=violation["message"],
                                         how=f"./check {prop.id} --replay {rpath}"), indent=1, default=str) + "\n")
        print(f"{prop.id}/{violation['sub']}: {violation['message']}")
        print(f"case: {json.dumps(violation['case'], default=str)[:2000]}")
        print(f"VIOLATION property={prop.id} replay={rpath}")
        return 1
    if errors:
        print("\n".join(errors[:2]), file=sys.stderr)
        print(f"{prop.id}: check error (no verdict)", file=sys.stderr)
        return 2
    print(f"{prop.id}: held on {merged['evaluations']} cases, {len(hashes)} distinct non-trivial, "
          f"{evidence['wall_s']} s" + (f", {skipped} not run for time" if skipped else ""))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)
