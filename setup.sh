#!/bin/bash
# Nothing to download; the checks are Python over /repo/py.  Verify that the pieces are there.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence" "$here/replays"
PYTHONPATH=/repo/py:"$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import mc.core, mc.fakemp, mc.fakempi; print('ok')"
