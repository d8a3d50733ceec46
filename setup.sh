#!/bin/bash
# builds the verifier into /verif/bin, offline
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin work evidence
cd gvc && go build -o ../bin/gvc .
