#!/bin/bash
# Parses every module of the specification and checks the arithmetic it stands on.
set -e
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in BigNumMC TokenizerGen Gen Trace Equiv Pack Tools; do
  java -cp $CP tla2sany.SANY $m.tla > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
  if grep -qi 'error' /tmp/sany.$$; then cat /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
echo setup done
