#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--only NAME] [-v]
cd "$(dirname "$0")" && exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m symfolx.runner "$@"
