#!/bin/bash
# check.sh <property|all|setup> : decides a property on /repo's current source.
set -u
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
: "${HOME:=/root}"; export HOME
mkdir -p .bin evidence
bin=.bin/trypocheck
if [ ! -x $bin ] || [ -n "$(find analyzer -name '*.go' -newer $bin -print -quit)" ]; then
  (cd analyzer && go build -o ../.bin/trypocheck.$$ . && mv ../.bin/trypocheck.$$ ../$bin) || exit 3
fi
[ "$1" = setup ] && exit 0
exec $bin -repo "${TRYPO_REPO:-/repo}" -prop "$1" -out "${TRYPO_OUT:-/verif/evidence}" -tier "${VERIF_TIER:-quick}"
