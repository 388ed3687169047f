#!/bin/bash
# Builds the harness from /repo's current working tree.
. "$(dirname "$0")/env.sh"
bash "$V/mkws.sh" || exit 3
# Cargo decides freshness by modification times; a content stamp is safer when trees are copied.
sum=$(cd /repo && find Cargo.toml build.rs src ferlium_macros -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
stamp=$V/build/source.stamp
cd "$V/harness" || exit 3
if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
    find "$V/build/ws/src/" "$V/build/ws/ferlium_macros/" -type f -newer "$stamp" -print -quit | grep -q . ||
        cargo clean --offline -p ferlium -p ferlium_macros >/dev/null 2>&1
fi
cargo build --offline "$@" || exit 3
echo "$sum" > "$stamp"
