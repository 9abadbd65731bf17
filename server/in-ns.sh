#!/bin/bash
# run the harness (a worker) in a network namespace of its own, where the server's fixed port is free
d=$(dirname "$0")
case $(basename "$0") in *alt*) exe=$VERIF_WORKER_ALT ;; *) exe=$VERIF_WORKER ;; esac
exe=${exe:-$d/target/release/server}
if unshare -Urn sh -c 'ip link set lo up' 2>/dev/null; then
  exec unshare -Urn sh -c 'ip link set lo up && exec "$0" "$@"' "$exe" "$@"
fi
exec "$exe" "$@"
