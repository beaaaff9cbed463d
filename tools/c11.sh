#!/bin/bash
# c11.sh BINARY ARGS: runs the harness next to a private MySQL server.
D=$VERIF_WORK/my
[ "$(df --output=avail -k /dev/shm 2>/dev/null | tail -1)" -gt 4000000 ] 2>/dev/null && D=$(mktemp -d /dev/shm/verif.c11.XXXXXX)
P=$(python3 -c 'import socket;s=socket.socket();s.bind(("127.0.0.1",0));print(s.getsockname()[1])')
bash "$VERIF_ROOT/tools/mysqld.sh" "$D" "$P" > "$VERIF_WORK/mysqld.out" 2>&1 &
M=$!
trap 'kill -9 $M 2>/dev/null; wait $M 2>/dev/null; rm -rf "$D"' EXIT
for i in $(seq 200); do
  mysqladmin -u root -S "$D/s" ping >/dev/null 2>&1 && break
  kill -0 $M 2>/dev/null || break
  sleep .3
done
mysqladmin -u root -S "$D/s" ping >/dev/null 2>&1 || { echo "CHECK-ERROR: no MySQL server"; tail -5 "$D/init.log" "$D/log"; exit 3; }
export C11_SOCKET=$D/s C11_PORT=$P
python3 "$VERIF_ROOT/tools/runbin.py" C11 "$VERIF_PART" "$@"
