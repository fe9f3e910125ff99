#!/bin/bash
# ./run.sh <property> [quick|thorough]  -- decides one property on /repo's working tree
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m mc.main "$1" "${2:-${VERIF_TIER:-quick}}"
