#!/bin/bash
# Builds the private extension module once, so that later checks only recompile what changed.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 HOME=${HOME:-/root}
exec /opt/venv/bin/python dst/build.py
