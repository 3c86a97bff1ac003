#!/bin/bash
# every check on every mechanically refactored tree: refall.sh [transform...]   (prints what is not quiet)
cd "$(dirname "$0")/.."; export PYTHONHASHSEED=0
W=${RF:-/tmp/refall}; mkdir -p $W
for n in ${@:-$(python3 tools/refactor.py --list)}; do
  python3 tools/refactor.py $n $W/$n >/dev/null || { echo "$n: FAILS"; continue; }
  mkdir -p $W/ev_$n
  python3 -c "import json;print('\n'.join(json.loads(l)['id'] for l in open('properties.jsonl')))" | SA_REPO=$W/$n SA_EVIDENCE=$W/ev_$n xargs -P 8 -I{} sh -c 'python3 check.py {} > '$W/ev_$n'/{}.out 2>&1; r=$?; [ $r = 0 ] || echo "'$n' {} rc=$r $(tail -4 '$W/ev_$n'/{}.out | tr "\n" " " | cut -c1-300)"'
  [ -n "$TESTS" ] && (cd $W/$n && echo "$n: $(PYTHONPATH=$W/$n/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1)")
  rm -r $W/$n $W/ev_$n
done
echo done
