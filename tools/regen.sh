#!/bin/bash
# Rebuilds the analyzer and rewrites MANIFEST.json and DESIGN.md.
cd "$(dirname "$0")/.." && ./check.sh setup && python3 tools/seeded.py -n && python3 tools/gen_manifest.py && python3 tools/gen_design.py
