#!/bin/bash
# try.sh VARIANT HARNESS PROP [args]: builds and runs one harness
cd $(dirname $(readlink -f $0))
V=$1 H=$2 P=$3; shift 3
X=$(python3 build.py $V $H) || { echo "$X" | head -40; exit 2; }
export MALLOC_PERTURB_=165 ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=78 LC_ALL=C
time $X --out /tmp/try.$H.json --part $H --replay-dir replays --known known-findings.txt --budget ${BUDGET:-240} "$@"
