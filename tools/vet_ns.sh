#!/bin/bash
# vet_ns.sh ID...: vet_bug.sh in a private mount namespace over copies of /repo and /verif (nothing outside changes)
for id in "$@"; do
  w=/root/vetns/$id; rm -rf "/root/vetns/$id"; mkdir -p $w/tmp
  cp -a /repo $w/repo; cp -a ${VSRC:-/verif} $w/verif
  unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && mount --bind $w/tmp /tmp && cd /verif && bash tools/vet_bug.sh $id" 2>&1
  cp $w/tmp/vet.* /root/vetns/ 2>/dev/null
  [ -n "$KEEP" ] || rm -rf "/root/vetns/$id"
done
