#!/bin/bash
# Nothing to build: the specification is run by TLC, the harness is Python.
# Check that the tools are there and that the specification parses.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
tmp=$(mktemp -d)
cd spec; for m in *.tla; do
  tla-sany "$m" > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 1; }
done
cd ..; rm -rf "$tmp"
mkdir -p evidence replay
