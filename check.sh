#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     run one property's generated-input search
#        check.sh --replay FILE                 re-run one saved case
# The code under test is imported from /repo's working tree (pure Python: nothing to build);
# nothing is written under /repo.
HERE="$(cd "$(dirname "$0")" && pwd)" || exit 3
cd "$HERE" || exit 3
export PYTHONPATH="${HTTPLINT_REPO:-/repo}:$HERE" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONHOME
exec /opt/venv/bin/python -m pbt.run "$@"
