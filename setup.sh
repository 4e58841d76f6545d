#!/bin/sh
# Nothing to compile: check that the command table, the specification and the tools are usable.
set -e
cd "$(dirname "$0")"
python3 vlib/gen_table.py --check
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for m in UnpiMC CodecMC WireTrace HostMC HostGen HostTrace StartupMC StartupGen StartupTrace LinkMC LinkGen LinkTrace; do
  java -cp "$CP" tla2sany.SANY "$m.tla" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
  if grep -q "Could not\|\*\*\* Errors" /tmp/sany.$$; then cat /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
cd ..
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, 'harness'); import link"
echo ready
