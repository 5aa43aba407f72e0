#!/bin/bash
# Nothing is prebuilt: every check compiles what it needs from /repo's working tree.
set -e
java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar && g++ --version >/dev/null
python3 "$(dirname "$0")/check.py" --selftest
