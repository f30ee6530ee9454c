#!/bin/bash
# usage: run.sh <property id>        (tier from VERIF_TIER, seed from VERIF_SEED)
# Runs one check against /repo's current working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tmp="$(mktemp -d /tmp/verif_run.XXXXXX)"
trap 'rm -rf -- "$tmp"' EXIT
export VERIF_TMP="$tmp"
export XDG_CACHE_HOME="$tmp/cache"
export HOME="$tmp/home"
export TMPDIR="$tmp"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$VERIF_REPO"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
export VERIF_TIER="${VERIF_TIER:-quick}"
export VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$XDG_CACHE_HOME" "$HOME"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
cd "$tmp"
"$py" "$here/checks/$id.py"
exit $?
