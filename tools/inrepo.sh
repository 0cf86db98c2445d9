#!/bin/bash
# inrepo.sh SCRATCH cmd...: run cmd with SCRATCH bind-mounted over /repo in a private user+mount namespace (development only).
SW="$1"; shift
mkdir -p "$SW.logs" "$SW.ev" "$SW.rp"
exec unshare -Urm bash -c 'mount --bind "$0" /repo && mount --bind "$0.logs" /opt/vp/logs && mount --bind "$0.ev" /verif/evidence && mount --bind "$0.rp" /verif/replays && cd /repo && exec "$@"' "$SW" "$@"
