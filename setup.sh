#!/bin/bash
# Nothing is built ahead of the checks; make sure the tools are there and the specifications parse.
cd "$(dirname "$0")" || exit 2
set -e
mkdir -p evidence
JAR=/opt/veriftools/tla/tla2tools.jar
T=$(mktemp -d)
cp spec/*.tla "$T"
cd "$T"
for f in *.tla; do
  java -cp "$JAR:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
cd /
rm -rf "$T"
echo "specifications parse"
