#!/bin/bash
# Checks that the tools are there, the drivers build and the specification parses. Nothing is kept: every check builds for itself.
set -e
cd "$(dirname "$0")/.."
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
bash harness/build.sh "$D/b"
bash harness/build_plugin.sh "$D/p"
cp spec/*.tla "$D"
cd "$D"
for m in SVTrace SVSystem SignerSystem VendorSystem NaluSystem SPTrace SPSystem; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > sany.out || { cat sany.out; exit 1; }
done
echo setup done
