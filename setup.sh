#!/bin/bash
# Nothing is kept between runs: every check compiles its clock shim into a
# scratch directory.  This only proves the toolchain is there.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
gcc -O2 -shared -fPIC -o "$t/vclock.so" rv/shim/vclock.c
PYTHONDONTWRITEBYTECODE=1 LD_PRELOAD="$t/vclock.so" PYTHONPATH="$PWD:/repo/src" /opt/venv/bin/python -c "import rv.sim as s; assert s.HAVE_VCLOCK; import docket"
/bin/rm -r "$t"
echo ok
