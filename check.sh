#!/bin/bash
# Usage: check.sh ID [--replay FILE] [--sub NAME]     (VERIF_TIER, VERIF_SEED from the environment)
# Builds what it needs from /repo's current working tree, decides property ID, writes evidence/ID.json.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no verdict.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
ID="$1"
[ -n "$ID" ] || { echo "usage: $0 ID" >&2; exit 2; }
case "$ID" in
  C25|C26|C27|C29) exec ./pycheck.sh "$@" ;;
esac
./build.sh || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
exec ./target/release/ellverif "$@"
