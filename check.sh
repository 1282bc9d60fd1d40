#!/bin/bash
# usage: check.sh ID [--thorough]; decides property ID on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export LC_ALL=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python -m sx.run "$@"
