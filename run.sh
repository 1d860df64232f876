#!/bin/bash
# usage: run.sh <crate> <bin>   builds one check against /repo's working tree and runs it
#        run.sh --setup         only checks that the tools are there
set -u
cd "$(dirname "$0")"
. ./env.sh
if [ "$1" = --setup ]; then
  python3 mkws.py && cd mc && exec cargo metadata --offline --format-version 1 --no-deps > /dev/null
fi
python3 mkws.py || exit 3
mkdir -p .build
cd mc
if ! cargo build --offline --quiet -p "mc-$1" --bin "$2" 2> ../.build/build-$2.log; then
  tail -n 60 ../.build/build-$2.log
  echo "error: $2 does not build against the current tree"
  exit 3
fi
exec "$CARGO_TARGET_DIR/debug/$2"
