#!/bin/sh
# mkref.sh <name> <props>: store the current change of /tmp/m/repo as a behaviour-preserving edit
cd /tmp/m/repo && go build ./... && git diff > /verif/refactors/$1.diff && echo "$2" > /verif/refactors/$1.props && git checkout -q . && git clean -fdq
