#!/bin/bash
# Development aid: runs, for every planted bug (or those named), its property's
# quick check against a scratch copy with the bug applied.
cd "$(dirname "$0")/.."
run() { s=$1; id=$(basename $s); p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
 t=$(mktemp -d /tmp/rs_XXXXXX); cp -a /repo/. $t; (cd $t && git apply $OLDPWD/$s/patch.diff) || { echo "$id PATCH FAILS"; rm -rf $t; return; }
 if [ -n "$ALL" ]; then ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); else ps=$p; fi
 hit=""; for q in $ps; do SVGIO_REPO=$t MC_NOEVIDENCE=1 ./run.sh $q >/tmp/rs_$id.$q.log 2>&1; r=$?; [ $r -ne 0 ] && hit="$hit $q($r)"; done
 echo "$id [$p] ->${hit:- MISSED}"; rm -rf $t; }
export -f run
export ALL
ls -d ${@:-seeded/*} | xargs -P 4 -I{} bash -c 'run {}'
