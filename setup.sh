#!/bin/bash
# Offline set-up: builds the compiled extension into /verif/.build when the
# one in /repo does not match its sources, and checks the tool chain.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
chmod +x run.sh
mkdir -p evidence replays .build
/opt/venv/bin/python -W ignore -c "import mc.env, pyuoi; print('pyuoi', pyuoi.__file__)"
