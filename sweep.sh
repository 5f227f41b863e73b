#!/bin/bash
# sweep.sh "<checks>" "<seeds>" [extra args]: several seeds, one line per run
for c in $1; do for s in $2; do
  /opt/venv/bin/python "$(dirname "$0")/run_check.py" "$c" --seed "$s" ${@:3} > /tmp/sweep.$$ 2>&1; rc=$?
  echo "$c seed=$s rc=$rc $(grep -v '^$' /tmp/sweep.$$ | head -${LINES_SHOWN:-2} | cut -c1-${WIDTH_SHOWN:-200})"
done; done
rm -f /tmp/sweep.$$
