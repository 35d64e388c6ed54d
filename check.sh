#!/bin/bash
# check.sh <property> | check.sh replay <file>      (VERIF_SEED, VERIF_TIER from the environment)
here=$(cd "$(dirname "$0")" && pwd)
case "$1" in
  replay) f=$(realpath -m "$2") ;;
esac
cd "$here" || exit 2
./build.sh || exit 2
export VERIF_DIR=$here
if [ "$1" = replay ]; then
  exec target/release/vp replay "$f"
fi
exec target/release/vp check "$1"
