#!/usr/bin/env python3
"""Development tool: verify planted changes in scratch copies and store them under seeded/.

usage: seed.py SPEC.py [id ...]   SPEC defines BUGS = {id: dict(prop, file, edits=[(old, new)], needs, breaks, demo)}
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, concurrent.futures as cf
V = pathlib.Path(__file__).resolve().parents[1]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = """#!/bin/bash
# run with the repository as working directory
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
S=$(cd "$(dirname "$0")" && pwd)
cd "$D" && /opt/venv/bin/python -B "$S/demo.py"
"""
def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))
    return p.returncode, p.stdout
def one(bid, b, check=True):
    root = pathlib.Path("/tmp/seed") / bid
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    repo = root / "repo"
    shutil.copytree("/repo", repo, symlinks=True)
    edits = b["edits"]
    for e in edits:
        f, old, new = e if len(e) == 3 else (b["file"], *e)
        p = repo / f
        s = p.read_text()
        if s.count(old) != 1:
            return bid, f"EDIT: {s.count(old)} matches for {old!r}"
        p.write_text(s.replace(old, new))
    _, diff = sh(["git", "diff"], repo)
    sd = root / "seed"
    sd.mkdir()
    (sd / "patch.diff").write_text(diff)
    (sd / "demo.sh").write_text(DEMO)
    (sd / "demo.sh").chmod(0o755)
    (sd / "demo.py").write_text(b["demo"].strip() + "\n")
    (sd / "meta.json").write_text(json.dumps(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
    rc0, o0 = sh(["bash", str(sd / "demo.sh")], "/repo")
    rc1, o1 = sh(["bash", str(sd / "demo.sh")], repo)
    msg = f"demo clean={rc0} mutated={rc1}"
    if rc0 or not rc1:
        return bid, msg + "\n" + (o0 if rc0 else o1)[-800:]
    xml = root / "j.xml"
    sh(["/opt/venv/bin/python", "-m", "pytest", "src", "-q", "-p", "no:cacheprovider", f"--rootdir={repo}", "-n", "4", "--timeout=300",
        "--tb=line", "--disable-warnings", "-x", "-o", "junit_family=xunit2", f"--junitxml={xml}"], repo)
    sh(["/opt/venv/bin/python", "/opt/vp/results.py", str(root / "r.json"), f"junit:{xml}"], repo)
    res = json.loads((root / "r.json").read_text())
    base = set(BASE["stable"])
    missing = base - set(res["passed"])
    if missing:
        return bid, msg + f" TESTS FAIL {len(missing)}: {sorted(missing)[:2]}"
    msg += " tests ok"
    dst = V / "seeded" / bid
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(sd, dst)
    if check:
        rc, out = sh(["./check", b["prop"]], V, env=dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED="1", VERIF_EVIDENCE=str(root / "ev")))
        msg += f" | check {b['prop']}: rc={rc} " + ("CAUGHT" if rc == 1 and f"VIOLATION property={b['prop']}" in out else "MISSED") + " " + out.strip().split("\n")[0][:200]
    return bid, msg
if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with cf.ThreadPoolExecutor(2) as ex:
        for f in cf.as_completed([ex.submit(one, i, bugs[i]) for i in ids]):
            bid, msg = f.result()
            print(bid, msg, flush=True)
            if "edits" and os.path.isdir(f"/tmp/seed/{bid}/repo") and "MISSED" not in msg:
                shutil.rmtree(f"/tmp/seed/{bid}", ignore_errors=True)
