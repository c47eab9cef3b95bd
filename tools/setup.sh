#!/bin/bash
# Nothing is built ahead of time: every check compiles its drivers from /repo's working tree.
set -e
cd "$(dirname "$0")/.."
command -v g++ java javac python3 >/dev/null
python3 -c 'import json
for l in open("properties.jsonl"): json.loads(l)
json.load(open("MANIFEST.json"))'
mkdir -p evidence replay
