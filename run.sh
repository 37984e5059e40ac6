#!/bin/bash
# run.sh <property> [tier]: builds the analyser if needed and decides one property on /repo.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
here=$PWD
mkdir -p bin evidence
fail() {
	echo "run.sh: $1"
	echo "$1" > "evidence/$prop.violations.txt"
	exit 2
}
build() {
	(cd analyzer && go build -trimpath -o "$here/bin/an.$$" . && mv -f "$here/bin/an.$$" "$here/bin/an")
}
newer() { [ -n "$(find analyzer -newer bin/an -print -quit 2>/dev/null)" ]; }
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/an ] || newer; then
	build || fail "the analyser does not build"
fi
[ "$prop" = setup ] && exit 0
exec bin/an -prop "$prop" -tier "$tier" -repo /repo -evidence "$here/evidence" -known "$here/known-findings.txt"
