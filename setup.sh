#!/bin/bash
# Nothing to compile: the framework is Python run by the interpreter the
# repository is installed into.  Verify that it can be imported.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
cd /tmp || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/stubs:$here/lib:/repo" CUDA_VISIBLE_DEVICES=-1 \
  /opt/venv/bin/python -c "import vh.core, numpy, scipy; print('setup ok')"
