#!/bin/bash
# Lays out build/ws: symbolic links to everything in /repo plus /repo's current Cargo.toml
# without its "fuzz" member (that member needs a git dependency that is out of reach), and the
# Cargo.lock that build.rs insists on reading.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
WS=$V/build/ws
mkdir -p "$WS"
find "$WS" -mindepth 1 -maxdepth 1 -type l -delete
for entry in /repo/* /repo/.[!.]*; do
    case "${entry##*/}" in
        .git | .cargo | Cargo.toml | Cargo.lock | target) ;;
        *) ln -s "$entry" "$WS/" ;;
    esac
done
sed '/^members = /s/, *"fuzz"//' /repo/Cargo.toml > "$WS/Cargo.toml.new"
if cmp -s "$WS/Cargo.toml.new" "$WS/Cargo.toml"; then rm "$WS/Cargo.toml.new"; else mv "$WS/Cargo.toml.new" "$WS/Cargo.toml"; fi
cmp -s "$V/harness/ferlium.lock" "$WS/Cargo.lock" || cp "$V/harness/ferlium.lock" "$WS/Cargo.lock"
