#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the code is imported from /repo/src.
# Checks that the tools are there and that every specification parses.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
java -version >/dev/null 2>&1 || { echo "java missing"; exit 1; }
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd specs && java -cp "$CP" tla2sany.SANY [A-Z]*.tla > ../out/sany.log 2>&1 || { tail -40 ../out/sany.log; exit 1; }
echo "setup ok"
