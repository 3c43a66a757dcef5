#!/bin/bash
# Parses every module of the specification; builds nothing else.
set -e
cd "$(dirname "$0")/spec"
out=$(mktemp)
for m in Trace Forms Numerals Prepose Markup Homonyms Reparse Offers Whole Fill Merging Layouts Sources Failing Twins Saved; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > "$out" 2>&1 ||
    { tail -20 "$out"; exit 1; }
done
unlink "$out"
echo parsed
