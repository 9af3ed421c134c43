#!/bin/bash
# Nothing to download or compile in advance: checks build from /repo's working tree. Verify the tools are here.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import sqlalchemy, pydantic'
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
cd ..; mkdir -p evidence
echo setup ok
