#!/bin/bash
cd "$(dirname "$0")/.." && { cat tools/design_head.md; echo "## Per property"; echo; /opt/venv/bin/python -B tools/gen_design.py; cat tools/design_tail.md; /opt/venv/bin/python -B tools/gen_catches.py; } > DESIGN.md
