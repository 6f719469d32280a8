#!/bin/bash
# nothing to compile: verify that the framework and the code under test import
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d /tmp/mc_setup_XXXX)
PYTHONPATH="$PWD":/repo/src /opt/venv/bin/python -c "import mud, mud.base, mc.core, mc.ref, mc.alpha" 2>/dev/null
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
