#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin=mc kind=plain
case "$1" in
C35|C45|C46) bin=mcs kind=sched ;;
C36|C47) bin=mcr kind=race ;;
esac
export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0"
./build.sh $kind || { echo "build failed"; exit 2; }
exec "$BUILD/$bin" -verif "$VERIF" -prop "$1" -tier "${2:-quick}" ${3:+"$3"}
