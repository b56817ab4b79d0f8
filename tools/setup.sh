#!/bin/bash
# Nothing is prebuilt: every check compiles its harnesses against /repo's current tree. Verify the toolchain is usable.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
g++ --version | head -1
python3 -c 'import json; json.load(open("checks.json")); json.load(open("MANIFEST.json"))'
