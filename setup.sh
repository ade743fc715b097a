#!/bin/bash
# Nothing to compile: check that the interpreter and the model checker are there.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 9)' || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1
[ -f /opt/veriftools/tla/CommunityModules-deps.jar ] || exit 1
echo ready
