#!/bin/bash
# mut.sh DIR "ids" [seed] : build the harness against DIR and run checks
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off; D=$1; W=$(mktemp -d)
sed "s#=> /repo#=> $D#" /verif/harness/go.mod > $W/go.mod; cp /verif/harness/go.sum $W/go.sum
RACE=""; 
cd /verif/harness && go build -modfile=$W/go.mod -o $W/h . || exit 2
mkdir -p $W/v; ln -s /verif/regress $W/v/regress
for i in $2; do
 if [ $i = M06 ]; then go build -race -modfile=$W/go.mod -o $W/hr . ; B=$W/hr; else B=$W/h; fi
 if timeout 900 $B -prop $i -verif $W/v -seed ${3:-1} > $W/out 2>&1; then echo "$i ok $(tail -1 $W/out | cut -c1-120)"; else echo "$i CAUGHT($?) $(grep -v VIOL $W/out | tail -n +2 | head -3 | cut -c1-400)"; fi
done
rm -rf $W
