#!/bin/bash
# scratch.sh PATCH|- CMD...: run CMD with a patched scratch copy of /repo bind-mounted over /repo (private mount namespace)
P=$1; shift
D=$(mktemp -d /tmp/scr.XXXXXX)
cp -a /repo "$D/repo"
if [ "$P" != - ]; then git -C "$D/repo" apply "$(realpath "$P")" || { rm -rf "$D"; exit 99; }; fi
unshare -m bash -c 'mount --bind "$0" /repo && cd /repo && "$@"' "$D/repo" "$@"
R=$?
rm -rf "$D"
exit $R
