#!/bin/bash
# Builds the driver and runs one property's campaign: check.sh ID | check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOWORK=off GOTOOLCHAIN=local GOPROXY=off
if ! mkdir -p "${GOCACHE:-$HOME/.cache/go-build}" 2>/dev/null || ! [ -w "${GOCACHE:-$HOME/.cache/go-build}" ]; then
  export GOCACHE="$PWD/.cache/go-build"
fi
drv="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$drv"' EXIT
go build -o "$drv/simdrv" ./cmd/simdrv || exit 2
case "$1" in
  replay) shift; "$drv/simdrv" replay "$@" ;;
  setup) "$drv/simdrv" setup ;;
  *) "$drv/simdrv" check "$@" ;;
esac
exit $?
