#!/bin/bash
# Nothing to build: checks run from the committed files. Verify the tools.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -c 'import sx; sx._load_z3(); import z3; print("z3", z3.get_version_string())'
