#!/bin/bash
# ./check.sh PROPERTY quick|thorough: decides one property for the code in /repo.
# ./check.sh build: builds the verifier.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOMEMLIMIT=20GiB
dir=$PWD
bin=$dir/bin/engine
build() {
	mkdir -p "$dir/bin"
	(cd engine && go build -o "$bin.$$" . && mv "$bin.$$" "$bin")
}
if [ "$1" = build ]; then
	build
	exit
fi
build || exit 2
exec "$bin" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -dir "$dir" -spec "$dir/spec" -repo /repo -seed "${VERIF_SEED:-1}"
