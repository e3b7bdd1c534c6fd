#!/bin/bash
# Nothing to build: check that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")/../spec"
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo/pysrc"); import whenever'
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla | tail -3
