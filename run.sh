#!/bin/sh
# run.sh <property id> [--replay FILE]: decide one property on the code in /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 \
  SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore lib/main.py "$@"
