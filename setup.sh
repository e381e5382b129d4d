#!/bin/bash
# Nothing to build: the checks are Python and import /repo/src directly. Verify that they can.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -c "from mc import core; core.setup_imports(); import numpy, ellalgo.ell, ellalgo.ell_stable, ellalgo.cutting_plane; print('ok')"
