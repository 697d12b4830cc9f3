#!/bin/bash
# Unpacks Hypothesis (not part of the project's own environment) into /verif/.deps. Offline.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -B vlib/bootstrap.py
mkdir -p evidence replays
echo "setup done"
