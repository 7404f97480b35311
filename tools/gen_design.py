#!/usr/bin/env python3
"""Prints the per-property table of DESIGN.md."""
import sys, pathlib, json
ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT))
from vp import boot  # noqa
import importlib
props = {p["id"]: p for p in map(json.loads, (ROOT / "properties.jsonl").read_text().splitlines())}
for pid, p in props.items():
    m = importlib.import_module(f"vp.props.{pid.lower()}").PROP
    ev = ROOT / "evidence" / f"{pid}.json"
    cost = f" Quick cost about {json.loads(ev.read_text())['wall_s']:.0f} s on 8 cores." if ev.exists() else ""
    print(f"### {pid} {p['title']}\n")
    print(m.rule, end=" ")
    print("Random cases, quick/thorough: " + ", ".join(f"{s.name} {s.quick}/{s.thorough}" + (" plus an enumeration" if s.explicit and s.quick else "")
                                                        if s.quick else f"{s.name} (enumerated)" for s in m.subs) + ".", end="")
    if m.assumptions:
        print(" Bounds and trust: " + "; ".join(m.assumptions) + ".", end="")
    print(f"\nWhy tests cannot: {p['why_tests_cant']}\n")
