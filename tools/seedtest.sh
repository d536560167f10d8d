#!/bin/bash
# seedtest.sh ID...: each in its own copy of /repo mounted over /repo in a private namespace:
# demo on the unchanged tree, demo with the patch, stable tests, this property's quick check
one() {
    id=$1; c=/tmp/sd-$id; log=/tmp/sd-$id.log
    rm -rf "/tmp/sd-$id"; cp -a /repo "$c"
    prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    unshare -Urm bash -c '
        id=$1; c=$2; prop=$3
        mount --bind "$c" /repo; cd /repo
        bash /verif/seeded/$id/demo.sh >/tmp/sd-$id.d0 2>&1; d0=$?
        git apply /verif/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; exit; }
        bash /opt/vp/build.sh >/tmp/sd-$id.b 2>&1; b=$?
        timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/sd-$id.d1 2>&1; d1=$?
        t=skipped
        if [ -z "$NOTESTS" ]; then
            bash /opt/vp/test.sh /tmp/sd-$id.json >/tmp/sd-$id.t 2>&1
            t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; p=set(json.load(open(\"/tmp/sd-$id.json\"))[\"passed\"])
print([x for x in b if x not in p][:3] or \"ok\")")
        fi
        cd /verif; ./check $prop quick >/tmp/sd-$id.c 2>&1; k=$?
        echo "$id $prop demo0=$d0 build=$b demo1=$d1 tests=$t check=$k $(grep -m1 ^VIOLATION /tmp/sd-$id.c) $(sed -n 2p /tmp/sd-$id.c | cut -c1-100)"
    ' _ $id $c $prop
    rm -rf "/tmp/sd-$id"
}
for i in "$@"; do one $i & done; wait
