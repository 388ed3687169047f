#!/bin/bash
# Builds the harness once.
cd "$(dirname "$0")" || exit 3
mkdir -p build evidence replays
exec bash build.sh
