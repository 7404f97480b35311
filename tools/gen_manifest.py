#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules (run by hand; not part of any check)."""
import sys, pathlib, json
ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT))
from vp import boot  # noqa
import importlib
TECH = {
 "C01": "PBT over configurations; stabilizer-flow and detector-sampling oracle",
 "C02": "PBT over configurations; stabilizer-simulation reference of the ideal schedule",
 "C03": "PBT over configurations; independently derived detector list",
 "C04": "PBT over configurations; independently derived observable record set",
 "C05": "PBT over configurations; shortest undetected error search vs. formula",
 "C06": "PBT over configurations and single-fault injection; graph search and decoding",
 "C07": "PBT over configurations; layer-by-layer validity predicate",
 "C08": "grammar-generated circuits; reference noise-insertion model",
 "C09": "grammar-generated circuits; strip-noise round trip",
 "C10": "PBT over strengths and bases; exact channel convolution",
 "C11": "PBT over sizes; torus invariants and reference geometry",
 "C12": "PBT over sizes; Pauli commutation algebra",
 "C13": "model-based histories vs. a set-based reference tracker",
 "C14": "generated error models vs. unrolled reference graph",
 "C15": "generated error models; brute-force minimum-weight explanation oracle",
 "C16": "generated circuits; deterministic, scripted and statistical oracles",
 "C17": "generated samples and failures against a recording stand-in program",
 "C18": "generated limits and batch-result histories vs. reference model",
 "C19": "generated run histories with injected interruptions vs. list model",
 "C20": "generated data and file trees vs. dictionary model; idempotence",
 "C21": "PBT; high-precision likelihood oracle, metamorphic relations",
 "C22": "PBT; high-precision oracle, exhaustive scan of generated functions",
 "C23": "PBT; closed-form rational extremes",
 "C24": "PBT; round trip through odd-parity recombination",
 "C25": "generated data; read-back of the drawn figure vs. reference curves",
 "C26": "generated data; reference projections",
 "C27": "enumerated and generated problems; facts read off the circuit",
 "C28": "generated deterministic circuits and histories; parity bookkeeping",
 "C29": "generated circuits; position and mark oracle",
 "C30": "generated call histories; cross-process differential",
 "C31": "PBT around equality; exact rational model",
 "C32": "generated command lines vs. reference run model",
 "C33": "generated data and file trees; differential against the figure functions",
 "C34": "generated data, places and decoder results through real script runs vs. reference models",
}
checks = []
for i in range(1, 35):
    pid = f"C{i:02d}"
    prop = importlib.import_module(f"vp.props.{pid.lower()}").PROP
    note = "Generated-input search, no proof of absence. " + prop.rule
    if prop.assumptions:
        note += " Assumes: " + "; ".join(prop.assumptions) + "."
    checks.append(dict(property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level=prop.level, level_note=note))
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="true", checks=checks, not_applicable=[],
    notes="No hooks in /repo. Checks import /repo/src directly (pure Python, nothing to build) with /opt/venv/bin/python."), indent=1) + "\n")
