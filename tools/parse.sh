#!/bin/bash
# parses every model and the judging module, so that two modules defining the same name are noticed at once
cd "$(dirname "$0")/../spec" || exit 2
jars=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
bad=0
for f in MC_*.tla Trace.tla; do
  java -cp "$jars" tla2sany.SANY "$f" > /dev/null 2>&1 || { echo "does not parse: $f"; bad=1; }
done
exit $bad
