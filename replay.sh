#!/bin/bash
# replay.sh FILE: runs the input of a reported violation on the real code again.
f="$(realpath "$1")"
cd "$(dirname "$0")" && exec env JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1 \
  PYTHONPATH="$PWD:${FOLX_REPO:-/repo}" /opt/venv/bin/python -m symfolx.replay "$f"
