#!/bin/bash
# reseed.sh "seeds" [ID...] : runs the check of every seeded bug (or the named ones) with the seeds
cd /verif/seeded || exit 2
seeds=${1:-1}; shift
ids=${*:-$(ls)}
one() {
 id=$1; seeds=$2; D=$(mktemp -d); cp -a /repo/. $D/; (cd $D && git apply /verif/seeded/$id/patch.diff) || { echo "$id DOES NOT APPLY"; rm -rf "$D"; return; }
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 r=""; for s in $seeds; do o=$(/verif/tools/mut.sh $D $p $s 2>&1 | cut -c1-12); case "$o" in *CAUGHT*) r="$r $s:yes";; *) r="$r $s:NO";; esac; done
 echo "$id $p$r"; rm -rf "$D"
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P 3 -I{} bash -c "one {} '$seeds'" | sort
