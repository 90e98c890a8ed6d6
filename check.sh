#!/bin/bash
# check.sh <property> [replay FILE]: decide one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=1
bin=.bin/gosym
stamp=$(cat gosym/go.mod gosym/run/*.go gosym/smt/*.go gosym/sx/*.go | sha256sum | cut -c1-16)
if [ ! -x $bin ] || [ "$(cat .bin/stamp 2>/dev/null)" != "$stamp" ]; then
  mkdir -p .bin
  (cd gosym && go build -o ../.bin/gosym.$$ ./run) || { echo "cannot build gosym" >&2; exit 2; }
  mv .bin/gosym.$$ $bin && echo "$stamp" > .bin/stamp
fi
[ "$1" = setup ] && exit 0
p=$1; shift
exec $bin -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -prop "$p" "$@"
