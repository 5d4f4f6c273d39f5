#!/bin/bash
# Builds the analyser into build/ (ignored by git) from the committed sources.
set -e
cd "$(dirname "$0")"
rm -rf "$PWD/build.new"
mkdir -p "$PWD/build.new" evidence
javac -encoding UTF-8 -nowarn -Xlint:none -d build.new -cp lib/asm-9.7.1.jar:lib/asm-tree-9.7.1.jar src/fpv/*.java
rm -rf "$PWD/build"
mv build.new build
