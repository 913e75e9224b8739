#!/bin/bash
# slots.sh N OUT CMD...: run CMD in N private copies of /repo and /verif, each
# seen at the usual paths (mount namespaces); CMD gets SLOT=0..N-1 and SLOTS=N.
# Output of each goes to OUT.<slot>. Waits for all of them.
n=$1; out=$2; shift 2
for i in $(seq 0 $((n-1))); do
    d=/tmp/slot$i
    mkdir -p $d/tmp
    rsync -a --delete /repo/ $d/repo/ 2>/dev/null || { rm -rf /tmp/slot$i/repo; cp -a /repo $d/repo; }
    rsync -a --delete /verif/ $d/verif/ 2>/dev/null || { rm -rf /tmp/slot$i/verif; cp -a /verif $d/verif; }
    SLOT=$i SLOTS=$n unshare -m bash -c 'd=/tmp/slot$SLOT
        exec >'"$out"'.$SLOT 2>&1
        mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/tmp /tmp || exit 9
        cd /verif && exec "$@"' slots "$@" &
done
wait
