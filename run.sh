#!/bin/bash
# run.sh CXX [quick|thorough] [--replay FILE]
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/run.py" "$@"
