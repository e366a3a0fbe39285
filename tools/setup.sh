#!/bin/sh
# parses every specification and imports the harness; nothing is built or written
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -B -c "import shipgrav, sys; sys.path.insert(0, 'harness'); import vlib"
java -version 2>&1 | head -1
