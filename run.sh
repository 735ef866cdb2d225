#!/bin/sh
# ./run.sh build | ./run.sh <property id> | ./run.sh replay <file>
# Builds the harness against the working tree of /repo and runs the check of one property.
# harness/ has the properties of the crates that build here, akaze-harness/ those of the akaze crate
# and sfm-harness/ those of the cv-sfm crate.
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd)
export VERIF_DIR
build() { (cd "$1" && cargo build --release --offline --quiet) || { echo "ERROR: $1 does not build"; return 3; }; }
id=$1
[ "$1" = replay ] && id=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -n 1)
case "$id" in
build)
    # A failure of one must not keep the checks of the others from running.
    build sfm-harness
    build akaze-harness
    build harness
    exit ;;
C29 | C3[0-5]) dir=akaze-harness bin=akcheck ;;
C3[6-9] | C4?) dir=sfm-harness bin=sfmcheck ;;
*) dir=harness bin=cvcheck ;;
esac
build "$dir" || exit 3
case "$1" in
replay) exec "$dir/target/release/$bin" replay "$2" ;;
*) exec "$dir/target/release/$bin" run "$1" ;;
esac
