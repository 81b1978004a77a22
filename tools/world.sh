#!/bin/bash
# world.sh N cmd...: run cmd with private copies of /repo and /verif mounted over them (own mount namespace)
n=$1; shift
w=/tmp/w$n
mkdir -p $w
[ -d $w/repo ] || cp -a /repo $w/repo
rsync -a --delete --exclude target /repo/ $w/repo/ 2>/dev/null || { cp -a /repo/src $w/repo/; }
[ -d $w/verif ] || cp -a /verif $w/verif
for d in gqv harness tools; do rm -rf $w/verif/$d; cp -a /verif/$d $w/verif/; done
cp -a /verif/check.py /verif/properties.jsonl /verif/known_findings.txt $w/verif/
exec unshare -Urm bash -c 'mount --bind '$w'/repo /repo && mount --bind '$w'/verif /verif && cd /verif && exec "$@"' _ "$@"
