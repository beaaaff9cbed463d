#!/bin/bash
# usage: mysqld.sh DIR PORT - runs a private, throw-away MySQL server in DIR (socket DIR/s) in the
# foreground; the caller ends it with a signal and removes DIR.
D=${1:?}; P=${2:?}
mkdir -p "$D" /mnt/data/tmp
cat > "$D/my.cnf" <<C
[mysqld]
user = root
datadir = $D/data
tmpdir = $D
socket = $D/s
pid-file = $D/pid
lc-messages-dir = /usr/share/mysql
bind-address = 127.0.0.1
port = $P
mysqlx = OFF
max_allowed_packet = 1G
secure_file_priv = /mnt/data/tmp/
innodb_page_size = 64KB
innodb_buffer_pool_size = 512M
innodb_redo_log_capacity = 128M
innodb_flush_method = nosync
innodb_doublewrite = OFF
innodb_flush_log_at_trx_commit = 0
innodb_stats_on_metadata = 0
innodb_table_locks = 0
skip-log-bin
sync_binlog = 0
performance_schema = OFF
max_connections = 1000
open_files_limit = 10000
C
PATH=$PATH:/usr/sbin
mysqld --defaults-file="$D/my.cnf" --initialize-insecure --log-error="$D/init.log" || exit 1
exec mysqld --defaults-file="$D/my.cnf" --log-error="$D/log"
