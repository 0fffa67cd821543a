#!/bin/bash
# Nothing to build ahead: each check works from /repo's current sources.
cd "$(dirname "$0")"
. /opt/vp/env.inc
mkdir -p evidence
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); from sx import run"
