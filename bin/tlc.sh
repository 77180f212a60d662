#!/bin/bash
# tlc.sh METADIR args... (run in the spec's directory)
M=$1; shift
exec java -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xmx${VERIF_XMX:-2g} -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir $M -noGenerateSpecTE "$@"
