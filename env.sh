# Sourced by the scripts: offline Go environment of the framework (never touches /opt/vp).
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GO111MODULE=on GOSUMDB=off
export VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export BUILD=$VERIF/.build
export GOCACHE=$BUILD/gocache
