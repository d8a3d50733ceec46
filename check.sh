#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 1
. ./env.sh
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/gvc ]; then bash ./setup.sh >/dev/null 2>&1; fi
if [ ! -x bin/gvc ]; then
  mkdir -p work/replay; echo "the verifier does not build" > work/replay/$1.txt
  echo "VIOLATION property=$1 replay=$PWD/work/replay/$1.txt no-failing-input-found"; exit 1
fi
timeout -k 5 850 bin/gvc check -prop "$1"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p work/replay; echo "the verifier stopped with code $rc" > work/replay/$1.txt
  echo "VIOLATION property=$1 replay=$PWD/work/replay/$1.txt no-failing-input-found"; exit 1
fi
exit $rc
