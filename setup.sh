#!/bin/bash
# Nothing is compiled: check the toolchain and parse every specification.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
cd "$here/spec"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export PYTHONPATH=$here:/repo PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "import chainerrl; assert chainerrl.__file__.startswith('/repo/')"
for m in *.tla; do
  java -XX:+UseSerialGC -Djava.io.tmpdir="$tmp" -cp "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tla2sany.SANY "$m" >"$tmp/out" 2>&1 || { cat "$tmp/out"; exit 1; }
done
echo "setup ok"
