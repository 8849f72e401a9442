#!/bin/bash
# Nothing to compile: TLC and the Python environment are part of the sandbox.
# Verify that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -W ignore -c "import refextract"
mkdir -p evidence
