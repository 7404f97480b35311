"""A stand-in for the external decoder program, installed only in scratch directories.

It saves everything it was given (arguments and the two input files) under its own directory, then plays back a
scripted reaction: `const`/`parity` predictions, verbatim output, failure, no output.
"""
import json
import os
import pathlib
import stat
import sys

SCRIPT = r'''#!%s -ESs
import sys, json, os
home = %r
cfg = json.load(open(os.path.join(home, "script.json")))
args = sys.argv[1:]
rec = dict(args=args, cwd=os.getcwd(), argv0=sys.argv[0])
opt = {}
for i, a in enumerate(args):
    if a in ("-dem_fname", "-dets_fname", "-out", "-mode"):
        opt[a] = args[i + 1]
for k in ("-dem_fname", "-dets_fname"):
    try:
        rec[k] = open(opt[k]).read()
    except Exception as e:
        rec[k] = None
        rec["problem"] = repr(e)
n = len([f for f in os.listdir(home) if f.startswith("call")])
json.dump(rec, open(os.path.join(home, "call%%d.json" %% n), "w"))
kind = cfg["kind"]
if kind == "exit":
    sys.exit(cfg["code"])
out = ""
if kind == "verbatim":
    out = cfg["text"]
elif kind == "masks":
    # prediction k = parity of the fired detectors in mask k, xor the flip
    for line in (rec["-dets_fname"] or "").splitlines():
        fired = {int(w[1:]) for w in line.split()[1:] if w[0] == "D"}
        out += "".join(str((len(fired & set(m)) + f) & 1) for m, f in zip(cfg["masks"], cfg["flips"])) + "\n"
if kind != "silent":
    with open(opt["-out"], "w") as f:
        f.write(out)
sys.exit(cfg.get("code", 0))
'''


def install(where: pathlib.Path, home: pathlib.Path, script: dict):
    home.mkdir(parents=True, exist_ok=True)
    (home / "script.json").write_text(json.dumps(script))
    where.mkdir(parents=True, exist_ok=True)
    p = where / "internal_decoder.binary"
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    p.write_text(SCRIPT % (py, str(home)))
    p.chmod(p.stat().st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    return p


def calls(home: pathlib.Path):
    return [json.loads((home / f"call{i}.json").read_text())
            for i in range(len([f for f in os.listdir(home) if f.startswith("call")]))]


class scratch_cwd:
    """A new directory tree <tmp>/a/b with cwd in b; removed afterwards."""
    def __enter__(self):
        import tempfile
        self.t = tempfile.TemporaryDirectory(prefix="fd_")
        self.root = pathlib.Path(self.t.name).resolve()
        self.cwd = self.root / "a" / "b"
        self.cwd.mkdir(parents=True)
        self.old = os.getcwd()
        os.chdir(self.cwd)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        self.t.cleanup()
