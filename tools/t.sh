#!/bin/bash
# short view of a check: tools/t.sh PROP [args]
cd "$(dirname "$0")/.."
./check.sh "$@" 2>/dev/null > /tmp/t.out
grep -v "^VIOLATION\|FAILED\|key=\|n= " /tmp/t.out | cut -c1-${W:-300} | head -${L:-12}
[ -n "$V" ] && grep "n= " /tmp/t.out | cut -c1-${W:-300} | head -${L:-12}
grep "FAILED" /tmp/t.out | cut -c1-${F:-300} | sed 's/\.[0-9]*:/:/' | awk '!s[$2]++' | head -12
