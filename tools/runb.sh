#!/bin/bash
# dev helper: run every mode of the buffers engine briefly
for m in stackraw stackown circraw circown; do echo "== $m"; ASAN_OPTIONS=exitcode=99:detect_leaks=0 timeout 100 /verif/build/buffers --mode $m --cases ${1:-4000} --seed ${2:-1} --out /verif/build/o.json --cur /verif/build/c.bin 2>&1 | grep -E "ORACLE|ERROR|runtime error|SUMMARY|HANG|TRACE" | head -5;  done
