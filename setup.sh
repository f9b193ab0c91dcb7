#!/bin/bash
# Builds every group binary once, so that a broken environment shows at setup.
cd "$(dirname "$0")" || exit 2
for g in $(ls harness/cmd); do
	[ -n "$(ls harness/cmd/$g/*.go 2>/dev/null)" ] || continue
	./build.sh "$g" || exit 2
done
./build.sh chainrace || exit 2
exit 0
