#!/bin/bash
# Unpack Hypothesis (and its one dependency) from the offline wheelhouse into /verif/.deps.
# Idempotent; run.sh calls it too, so a check works even if setup_cmd's output is not kept.
set -e
cd "$(dirname "$(readlink -f "$0")")"
if [ ! -f .deps/.ok ]; then
  tmp=$(mktemp -d "$PWD/.deps.XXXXXX")
  trap 'rm -rf "$tmp"' EXIT
  for w in hypothesis-6.170.15-cp312 sortedcontainers-2.4.0; do
    f=$(ls /opt/veriftools/wheels/$w*.whl | head -1)
    /opt/venv/bin/python -m zipfile -e "$f" "$tmp"
  done
  touch "$tmp/.ok"
  if [ ! -f .deps/.ok ]; then rm -rf "$PWD/.deps"; mv "$tmp" .deps; fi
fi
PYTHONPATH="$PWD/.deps" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import hypothesis; print("hypothesis", hypothesis.__version__)'
