#!/bin/bash
# vcheck.sh PROPERTY [--tier quick|thorough] [--replay FILE]
. /opt/vp/env.inc
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m sx "$@"
