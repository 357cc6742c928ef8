#!/bin/bash
# verify.sh [-c "C01 C02"] [-n] ID...: confirms planted bugs in a private mount namespace over copies of /repo: the demonstration passes
# on the unchanged tree, the patch applies and builds, the stable tests pass, the demonstration fails. -c: run these checks
# too ("own": the check of the property in meta.json). -n: only the checks.
B=/tmp/sv; mkdir -p $B
CHECKS= ; ONLY=
while :; do case "$1" in -c) CHECKS="$2"; shift 2;; -n) ONLY=1; shift;; *) break;; esac; done
H=$(git -C /repo rev-parse HEAD)
if [ "$(cat $B/head 2>/dev/null)" != "$H" ]; then
    /bin/rm -rf /tmp/sv/base; cp -a /repo /tmp/sv/base; git -C /tmp/sv/base checkout -q -- .
    unshare -Urm bash -c 'mount --bind /tmp/sv/base /repo && bash /opt/vp/build.sh' > $B/base.log 2>&1
    echo $H > $B/head
fi
one() {
    id=$1; S=/verif/seeded/$id; W=/tmp/sv/w-$id; D=/tmp/sv/d-$id
    python3 -c "import json;m=json.load(open('$S/meta.json')); assert {'property','needs','what_it_breaks'}<=set(m)" || return
    /bin/rm -rf "$W" "$D"; cp -a /tmp/sv/base $W; mkdir -p $D; cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
    git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; return; }
    out="$id:"
    if [ -z "$ONLY" ]; then
    out+=" $(unshare -Urm bash -c "mount --bind /tmp/sv/base /repo; cd /repo; timeout 300 bash $D/demo.sh >$B/$id.before 2>&1; echo demo before=\$?")"
    out+=" $(unshare -Urm bash -c "mount --bind $W /repo; cd /repo; bash /opt/vp/build.sh > $B/$id.build 2>&1; echo build=\$?; bash /opt/vp/test.sh $B/$id.json >/dev/null 2>&1; cd /repo; timeout 300 bash $D/demo.sh >$B/$id.after 2>&1; echo demo after=\$?" | tr '\n' ' ')"
    out+=" missing=$(python3 -c "
import json
print(sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('$B/$id.json'))['passed'])))") [$(tail -1 $B/$id.after | cut -c1-140)]"
    fi
    for c in $CHECKS; do
        [ $c = own ] && c=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
        r=$(unshare -Urm bash -c "mount --bind $W /repo; cd /verif; mkdir -p /tmp/sv/ev-$id; mount --bind /tmp/sv/ev-$id /verif/evidence; timeout 900 python3-vt check.py $c" > $B/$id.$c.log 2>&1; echo $?)
        out+=" $c=$r($(grep -o '^case [0-9]*' $B/$id.$c.log | cut -c6-))"
        /bin/rm -rf "/tmp/sv/ev-$id"
    done
    echo "$out"
    /bin/rm -rf "$W" "$D"
}
for id in "$@"; do one $id; done
