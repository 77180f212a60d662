#!/bin/bash
# Checks that the toolchain is there and that every specification parses.
cd "$(dirname "$0")/../spec" || exit 1
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  java -XX:+UseSerialGC -cp $J tla2sany.SANY $m > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  echo "parsed $m"
done
rm -f /tmp/sany.$$
