#!/usr/bin/env python3
"""Prints the table of planted changes and the checks that report them (tools/catches.json: id -> checks)."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parents[1]
got = json.loads((R / "tools" / "catches.json").read_text())
print("| planted change | needs | reported by |\n|---|---|---|")
for d in sorted((R / "seeded").iterdir()) if (R / "seeded").is_dir() else []:
    m = json.loads((d / "meta.json").read_text())
    print(f"| {d.name} | {m['needs']} | {', '.join(got.get(d.name, ['(' + m['property'] + ': not run)']))} |")
