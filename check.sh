#!/bin/bash
# usage: check.sh <property> quick|thorough|replay [file]
cd "$(dirname "$0")" || exit 2
unset VSIM_BOOTED
exec /opt/venv/bin/python -m sim.main "$@"
