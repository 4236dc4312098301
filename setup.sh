#!/bin/bash
# Nothing to install: every check compiles what it needs from /repo into its own scratch directory.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for f in java swig g++ ; do command -v $f >/dev/null; done
test -x /opt/venv/bin/python
