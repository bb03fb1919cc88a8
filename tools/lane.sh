#!/bin/bash
# lane.sh NAME COMMAND...: runs COMMAND in a mount and pid namespace of its own, in which /repo, /verif, /opt/vp and
# /tmp are private copies under /tmp/lanes/NAME (several lanes can then try changes of /repo side by side).
set -e
name=$1; shift
L=/tmp/lanes/$name
if [ ! -d "$L" ]; then
    mkdir -p "$L/tmp"
    cp -a /repo "$L/repo"; cp -a /opt/vp "$L/vp"
    mkdir "$L/verif"; cp -a /verif/. "$L/verif/"
else
    git -C "$L/repo" checkout -q -- . && git -C "$L/repo" fetch -q /repo HEAD && git -C "$L/repo" reset -q --hard FETCH_HEAD
    rsync -a --delete --exclude=/build --exclude=/evidence /verif/ "$L/verif/" 2>/dev/null || cp -a /verif/{check.py,vlib,harness,tools,known_findings.jsonl,properties.jsonl} "$L/verif/"
fi
export L
exec unshare -m -p -f --mount-proc bash -c '
mount --make-rprivate /
mount --bind $L/repo /repo; mount --bind $L/verif /verif; mount --bind $L/vp /opt/vp
mount --bind $L/tmp /tmp
cd /verif; exec "$@"' lane "$@"
