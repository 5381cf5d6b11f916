#!/bin/bash
# nothing to build: Python and TLA+ are interpreted; check that the tools are there and the modules parse
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import ZODB, json' || exit 1
cd spec || exit 1
for m in Broker TraceBroker MCBroker TraceCodec MCCodec TraceClient MCClient MCFrame TraceFrame MCProxy TraceProxy MCExplorer TraceExplorer; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null || { echo "cannot parse $m"; exit 1; }
done
exit 0
