#!/bin/bash
# Compiles the TLC module override; every check does the same by itself when it is missing.
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
cd "$D" && PYTHONPATH="$D/lib" /opt/venv/bin/python -c "import core; print(core._java_classes())"
