#!/bin/bash
# dev1.sh ENGINE FLAVOR args... : run an engine directly with TSAN options
E=$(ls -dt build/$1-$2-*/ | head -1)engine; shift 2
TSAN_OPTIONS="exitcode=99:halt_on_error=1:history_size=4" timeout 300 $E "$@" --out /tmp/o.json --cur /tmp/c.bin --tmp /tmp 2>&1
