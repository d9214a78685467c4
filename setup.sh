#!/bin/bash
# Nothing to compile: the specifications are text and the checks are Python. Verify that the tools are here.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "harness"); import vlib'
