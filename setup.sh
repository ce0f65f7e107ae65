#!/bin/bash
# Checks that the tools are there and every specification parses.
set -eu
cd "$(dirname "$(realpath "$0")")"
mkdir -p evidence
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -B -c 'import numpy, lsst.sphgeom, lsst.pex.config'
T=$(mktemp -d)
cd spec
java -Djava.io.tmpdir="$T" -cp $CP tla2sany.SANY *.tla > "$T/sany.log" 2>&1 || { cat "$T/sany.log"; exit 1; }
rm -rf "$T"
echo setup ok
