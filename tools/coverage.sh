#!/bin/bash
# coverage.sh PROP...   lines of the library which the checks of these properties do not reach
cd "$(dirname "$0")/.."
export RG_COV=1 RG_BUILD=/tmp/cov/build RG_TIME=${RG_TIME:-0.3} LLVM_PROFILE_FILE=/tmp/cov/%p-%m.profraw
mkdir -p /tmp/cov
for p in "$@"; do
    LLVM_PROFILE_FILE=/tmp/cov/$p-%8m.profraw python3 run.py $p quick | tail -2
done
llvm-profdata merge -o /tmp/cov/all.profdata /tmp/cov/*.profraw
objs=$(ls /tmp/cov/build/*/{prog,units,sys,big} 2>/dev/null | sed 's/^/-object /')
llvm-cov report $objs -instr-profile=/tmp/cov/all.profdata -ignore-filename-regex='verif|share|/usr/' 
llvm-cov show $objs -instr-profile=/tmp/cov/all.profdata -ignore-filename-regex='verif|share|/usr/' > /tmp/cov/show.txt
