#!/bin/bash
# Nothing to build: the checks import /repo's Python sources. Confirms that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1
"${VERIF_PYTHON:-/opt/venv/bin/python}" - <<'PY'
import sys
sys.path.insert(0, 'lib')
import boot
boot.env(); boot.boot()
import hypothesis, jax, tensorflow
print('ok: hypothesis', hypothesis.__version__, 'jax', jax.__version__)
PY
