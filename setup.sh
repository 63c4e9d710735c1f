#!/bin/bash
# nothing to build: the checks run TLC on the specifications in spec/ and
# import the code from /repo/src.  Verify that the tools are there.
cd "$(dirname "$0")" || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || { echo "TLC missing"; exit 1; }
/opt/venv/bin/python -c 'import numpy, bitstruct' || exit 1
mkdir -p evidence replay
echo ok
