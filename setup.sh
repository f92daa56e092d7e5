#!/bin/bash
# Nothing to compile: checks that the interpreter and the modules the framework needs are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import coincurve, requests
from mc import env, explorer, refbtc, harvest, lib, build
print('setup ok: bit from', env.bit.__file__)"
