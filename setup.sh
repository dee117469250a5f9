#!/bin/bash
# nothing to build ahead: every check compiles its harness against /repo's current tree
set -e
cd "$(dirname "$0")"
chmod +x check
java -version >/dev/null 2>&1
python3 -c 'import json; json.load(open("MANIFEST.json"))'
mkdir -p evidence
for m in spec/*.tla; do test -s "$m"; done
echo "setup: ok"
