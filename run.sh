#!/bin/bash
# ./run.sh <property> [-case N] [-tier T] [-seed S]: builds the harness against
# /repo's working tree and runs one check.  VERIF_SEED and VERIF_TIER are read.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
group=$(awk -v id="$id" '$1==id{print $2}' "$here/groups.txt")
race=$(awk -v id="$id" '$1==id{print $3}' "$here/groups.txt")
[ -n "$group" ] || { echo "unknown property $id"; exit 3; }
T=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 3
trap 'rm -rf -- "$T"' EXIT
cd "$here/harness" || exit 3
flag=
if [ "$race" = race ]; then
  # The race detector's standard library orders every write system call before
  # every later read; without that, races of a network server show.
  src=$(go env GOROOT)/src/syscall/syscall_unix.go
  sed '/race\.\(Acquire\|ReleaseMerge\)(unsafe.Pointer(&ioSync))/d' "$src" > "$T/syscall_unix.go"
  printf '{"Replace":{"%s":"%s"}}' "$src" "$T/syscall_unix.go" > "$T/overlay.json"
  flag="-race -overlay $T/overlay.json"
fi
if ! go build $flag -buildvcs=false -o "$T/vh" "./cmd/$group" 2> "$T/build.log"; then
  echo "check error: build failed"; cat "$T/build.log"; exit 3
fi
cd "$T" || exit 3
ulimit -c 0
"$T/vh" -check "$id" -verif "$here" -scratch "$T" "$@"
exit $?
