#!/bin/sh
# Builds the framework from the committed files (offline).  The checks build
# whatever is missing or outdated themselves; this only shows that it builds.
set -e
cd "$(dirname "$0")"
(cd harness && cargo build --offline && cargo build --offline --release)
(cd patterns && cargo build --offline)
cd spec && for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/dev/null
done
