#!/bin/bash
# Builds the native extensions of /repo's working tree into /verif/.cache (ignored by git).
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/lib"
exec /opt/venv/bin/python -c "from vlib import env; print(env.build_extensions())"
