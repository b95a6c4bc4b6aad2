#!/bin/bash
# build.sh [plain|sched|race]: builds the checker from /verif/mc and /repo's current working tree into .build/
#   plain  mc   the code as it is
#   sched  mcs  goroutines, channels and locks under the explorer's control (cmd/rewrite)
#   race   mcr  the same, watched by the race detector
. "$(dirname "$0")/env.sh"
mkdir -p "$BUILD" || exit 2
python3 "$VERIF/tools/overlay.py" "$BUILD/overlay" || exit 2
cp -f "$VERIF/mc/go.mod" "$BUILD/go.mod" && cp -f "$VERIF/mc/go.sum" "$BUILD/go.sum" || exit 2
cd "$VERIF/mc" || exit 2
export GOFLAGS="-modfile=$BUILD/go.mod -mod=mod"
out=mc ov=overlay.json opt=
case "${1:-plain}" in
sched) out=mcs ov=overlay-sched.json ;;
race) out=mcr ov=overlay-sched.json opt="-race -gcflags=verif/mc/sched=-race=false" ;;
esac
{
	if [ $out != mc ]; then go run ./cmd/rewrite "$BUILD/overlay" || exit 2; fi
	go build -ldflags=-checklinkname=0 $opt -overlay "$BUILD/overlay/$ov" -o "$BUILD/$out" ./cmd/mc
} 2>"$BUILD/build.log" || { cat "$BUILD/build.log" >&2; exit 2; }
