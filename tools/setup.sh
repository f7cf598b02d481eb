#!/bin/bash
# builds every simulator once so that the checks only recompile what changed
set -e
cd "$(dirname "$0")/.."
python3 tools/build.py
python3 -c "import json; json.load(open('MANIFEST.json'))"
