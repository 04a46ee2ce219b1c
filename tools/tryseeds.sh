#!/bin/bash
# tryseeds.sh ANALYZER SEED...: confirm planted changes in scratch copies of /repo and say whether the property's check sees them.
an=$1; shift
one() { s=$1; n=$(basename $s); d=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo/. $d; cp -a $s $d.demo; rm -f $d.demo/*.diff $d.demo/meta.json
(cd $d; bash $d.demo/demo.sh >/dev/null 2>&1); c=$?
(cd $d; git apply $s/patch.diff) || echo APPLY FAILS
(cd $d; go build ./... && go test . ./internal/match >/dev/null 2>&1); t=$?
(cd $d; bash $d.demo/demo.sh >$d.demo/out 2>&1); m=$?
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
$an -prop $p -repo $d -out $d.ev > $d.log 2>&1; r=$?
echo "$n $p: demo clean=$c changed=$m tests=$t check=$r $(grep -v -m1 "obligations\|^VIOL" $d.log | cut -c1-110)"
rm -rf $d $d.demo $d.ev $d.log; }
export -f one; export an
printf '%s\n' "$@" | xargs -P3 -I{} bash -c 'one {}'
