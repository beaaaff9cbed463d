package mysql

import "github.com/netsec-ethz/fpki/pkg/db"

// VerifConnect replaces the connection to the MySQL server (the original function is renamed).
var VerifConnect func(config *db.Configuration) (db.Conn, error)

func Connect(config *db.Configuration) (db.Conn, error) { return VerifConnect(config) }
