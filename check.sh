#!/bin/bash
# bash check.sh C01            decide one property against /repo's working tree
# bash check.sh --replay FILE  run the case of a recorded violation again
set -u
cd "$(dirname "$0")" || exit 2
pyc=$(mktemp -d /tmp/vf-pyc.XXXXXX) || exit 2
trap 'rm -rf "$pyc"' EXIT
# no byte code of an earlier tree is ever used: vblf is compiled from its current sources
export PYTHONPYCACHEPREFIX="$pyc" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=
/opt/venv/bin/python -X faulthandler -m vf.engine "$@"
exit $?
