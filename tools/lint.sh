#!/bin/sh
# Parses every top module; prints the ones that do not parse.
cd "$(dirname "$0")/../spec" || exit 2
CP=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for f in [GTM]*_*.tla; do (java -cp "$CP" tla2sany.SANY "$f" 2>&1 | grep -qE '^\*\*\* (Errors|Parse|Abort)|Could not|Fatal|Unknown' && echo "BAD $f") & 
  [ "$(jobs | wc -l)" -ge 8 ] && wait; done; wait
