#!/bin/bash
# check.sh ID [replay file]: builds the group binary of the property from /repo's working tree and runs its check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"
case "$id" in
C09|C10|C11|C12) group=crypto ;;
C01|C02|C03|C05|C06|C07|C08|C24) group=codec ;;
C13|C14|C15|C16|C17|C18) group=chain ;;
C19|C20) group=chainrace ;;
C04|C21|C22|C23) group=node ;;
*) echo "unknown property $id" >&2; exit 2 ;;
esac
[ $group = codec ] && export VERIF_AS_GB=16
./build.sh "$group" || exit 2
exec "./build/$group" "$@"
