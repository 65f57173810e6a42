#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
id=$1
variant=plain
grep -q '^VARIANT = "asan"' "$here/checks/${id,,}.py" && variant=asan
grep -q '^VARIANT = "count"' "$here/checks/${id,,}.py" && variant=count
out=$($PY "$here/lib/build.py" $variant 2>&1) || { echo "$out"; echo "check.sh: build of the code under test failed"; exit 2; }
root=$(cd "$here" && $PY - <<P
import sys; sys.path.insert(0, "$here/lib")
import build
r, ref = build.build("$variant"); print(r + "|" + ref)
P
) || exit 2
export VERIF_PKG=${root%%|*} VERIF_REF=${root##*|}
export PYTHONPATH=$VERIF_PKG
if [ $variant = asan ]; then
    export LD_PRELOAD="$(g++ -print-file-name=libasan.so) $(g++ -print-file-name=libubsan.so)"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0
    export UBSAN_OPTIONS=halt_on_error=1:abort_on_error=1:print_stacktrace=1
    export PYTHONMALLOC=malloc
fi
cd "$here"
exec $PY "$here/lib/runner.py" "$@"
