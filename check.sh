#!/bin/bash
# check.sh ID [quick|thorough] [more arguments of lbverif]
# Builds the programs from /repo's working tree and the harness, then decides property ID.
# Exit 0: the property held on everything explored.  1: VIOLATION line.  2: no verdict (build or harness trouble).
set -u
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d "${TMPDIR:-/tmp}/lbverif.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/bin" || exit 2
case $id in C23|C24) JAR_BUILD=$scratch/bin/limabean-jar;; *) JAR_BUILD=;; esac
. "$here/build.sh" || exit 2
cp "$POD_DIR/limabean" "$POD_DIR/limabean-pod" "$scratch/bin/" || exit 2
"$here/harness/target/debug/lbverif" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
    --verif "$here" --bin "$scratch/bin" --scratch "$scratch/work" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) exit 2;; esac
