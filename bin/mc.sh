#!/bin/bash
# mc.sh SPEC [CFG]: model-check a specification, quietly.
cd "$(dirname "$0")/../specs"; c=${2:-$1}; d=$(mktemp -d)
timeout ${T:-600} tlc -workers 8 -noGenerateSpecTE -metadir "$d" ${X} -config $c.cfg $1.tla | grep -v "^Parsing\|^Semantic proc\|^Linting\|^Starting\|^Computing"
rm -r -- "$d"
