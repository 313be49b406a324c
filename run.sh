#!/bin/bash
# usage: run.sh <property> <quick|thorough>      run one check
#        run.sh replay <file>                    re-run one recorded counterexample
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONUTF8=1 LC_ALL=C.UTF-8 TZ=UTC
# never believe byte code somebody else left lying about
PYTHONPYCACHEPREFIX=$(mktemp -d "${TMPDIR:-/tmp}/mc-pyc.XXXXXX")
export PYTHONPYCACHEPREFIX
/opt/venv/bin/python -m mc.main "$@"
rc=$?
rm -rf -- "${PYTHONPYCACHEPREFIX:?}"
exit $rc
