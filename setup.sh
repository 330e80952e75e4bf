#!/bin/bash
# Nothing to build: the checks are Python and import ade from /repo afresh.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, twisted, asynqueue'
