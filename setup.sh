#!/bin/bash
# Nothing is built ahead of time: every check builds what it needs from /repo.
# This only makes sure that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")"
command -v java python3 >/dev/null
test -x /opt/veriftools/go1.27.3/bin/go
test -x /opt/vp/gobin/goyacc
python3 -m py_compile check.py lib/*.py && find . -name __pycache__ -prune -exec rm -r {} +
for f in tla/*.tla; do
  java -DTLA-Library=tla -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/dev/null || { echo "$f does not parse"; exit 1; }
done
echo ok
