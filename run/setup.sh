#!/bin/bash
# Nothing to install: every check compiles what it needs from /repo's working
# tree and runs TLC on /verif/spec.  Only verify that the tools are there.
set -e
command -v g++-14 >/dev/null
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
cd "$(dirname "$0")/.."
mkdir -p build evidence
echo ready
