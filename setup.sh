#!/bin/sh
# Parses the specification and builds the harness once.
cd "$(dirname "$0")" || exit 1
cd spec || exit 1
for m in *.tla; do
  tla-sany "$m" > /tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
cd .. && exec python3 tools/check.py --build
