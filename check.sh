#!/bin/bash
# check.sh <property id> quick|thorough            decide one property on /repo's current tree
# check.sh <property id> --replay <replay file>    run one recorded case again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
names=(- traversal_order leaves ancestors context child_edits at_path map fold prune prune_depth pipelines
  collection_traversal collection_transforms collection_pipelines value_ownership attach_contract lazy_children
  memory_safety tree_values iterator_protocol deep_trees histories type_independence)
num=$((10#${1#C}))
bin=${names[$num]:-}
[ -n "$bin" ] || { echo "unknown property $1" >&2; exit 2; }
shift
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR=$here/harness/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS
profile=release
[ "$bin" = deep_trees ] && profile=plain # unoptimised: recursion must not be turned into loops
# Never a build of other sources: cargo goes by the age of files, this by what they contain.
now=$(find /repo/tree_iterators_rs -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" ]; then
  mkdir -p "$CARGO_TARGET_DIR"
  find "$CARGO_TARGET_DIR" -depth -path '*/.fingerprint/tree_iterators_rs-*' -delete
  echo "$now" >"$CARGO_TARGET_DIR/.sources"
fi
if ! log=$(cargo build --offline --locked --profile $profile --features serde --bin "$bin" 2>&1); then
  echo "$log" | tail -60 >&2
  echo "harness build failed" >&2
  exit 2
fi
if [ "$bin" = memory_safety ]; then
  exec python3 "$here/tools/memsafe.py" "$@"
fi
exec "$CARGO_TARGET_DIR/$profile/$bin" "$@"
