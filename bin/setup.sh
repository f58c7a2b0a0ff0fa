#!/bin/bash
# Nothing is kept between runs: every check builds what it needs. Only make sure the tools are there.
set -e
cd "$(dirname "$0")/.."
test -x /opt/veriftools/go1.27.3/bin/go
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
python3 -c 'import json; json.load(open("MANIFEST.json"))'
mkdir -p evidence
