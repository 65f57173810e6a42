#!/bin/bash
# Builds the package copy and the reference model once (every check does it again by itself when needed).
. /opt/vp/env.sh
cd "$(dirname "$0")" && $PY lib/build.py plain asan count
