#!/bin/sh
# Compile the TLC override and test it against integer arithmetic.
set -e
cd "$(dirname "$0")"
mkdir -p build out
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build java/R64.java
cd spec
java -cp ../build:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -workers 1 -deadlock -metadir ../build/states -noGenerateSpecTE -config R64Test.cfg R64Test.tla | grep -q 'No error has been found'
echo "setup done"
