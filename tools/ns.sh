#!/bin/bash
# ns.sh COMMAND...: runs it with private copies of /repo, /verif and /opt/crdc (own mount namespace),
# so that seeds and refactorings can be tried side by side without touching the real trees.
d=$(mktemp -d /tmp/ns.XXXXXX)
cp -a /repo $d/repo; cp -a /verif $d/verif; cp -a /opt/crdc $d/crdc
D=$d unshare -Urm bash -c 'for p in repo:/repo verif:/verif crdc:/opt/crdc; do mount --bind $D/${p%%:*} ${p#*:} || exit 9; done; cd /verif; exec "$@"' ns "$@"
rc=$?
rm -rf "$d"
exit $rc
