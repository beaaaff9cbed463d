package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"sync"

	mysqldrv "github.com/go-sql-driver/mysql"

	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

// A connection to the server whose statements and rows can be made to fail, one at a time.

var errFault = errors.New("injected failure of the server")

// plan counts the events of an operation by name; the nth event of the chosen name fails.
type plan struct {
	mu     sync.Mutex
	count  map[string]int
	name   string
	n      int
	cancel func() // if set the context is cancelled at the event instead
}

func (p *plan) event(name string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := p.count[name]
	p.count[name]++
	if name == p.name && k == p.n {
		if p.cancel != nil {
			p.cancel()
			return nil
		}
		return errFault
	}
	return nil
}

type connector struct {
	driver.Connector
	p *plan
}

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	x, err := c.Connector.Connect(ctx)
	if err != nil {
		return nil, err
	}
	return &fconn{x, c}, nil
}

type fconn struct {
	driver.Conn
	c *connector
}

func (f *fconn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	if err := f.c.p.event("query " + q + numbers(a)); err != nil {
		return nil, err
	}
	x, err := f.Conn.(driver.QueryerContext).QueryContext(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return &frows{x, f.c, "row of " + q + numbers(a)}, nil
}

func (f *fconn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	if err := f.c.p.event("exec " + q + numbers(a)); err != nil {
		return nil, err
	}
	return f.Conn.(driver.ExecerContext).ExecContext(ctx, q, a)
}

// numbers distinguishes the statements that run concurrently for different partitions.
func numbers(a []driver.NamedValue) (s string) {
	for _, v := range a {
		if n, ok := v.Value.(int64); ok {
			s += fmt.Sprint(" ", n)
		}
	}
	return s
}

func (f *fconn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := f.c.p.event("begin"); err != nil {
		return nil, err
	}
	return f.Conn.(driver.ConnBeginTx).BeginTx(ctx, o)
}

func (f *fconn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := f.c.p.event("prepare " + q); err != nil {
		return nil, err
	}
	return f.Conn.(driver.ConnPrepareContext).PrepareContext(ctx, q)
}

func (f *fconn) CheckNamedValue(v *driver.NamedValue) error {
	return f.Conn.(driver.NamedValueChecker).CheckNamedValue(v)
}
func (f *fconn) ResetSession(ctx context.Context) error {
	return f.Conn.(driver.SessionResetter).ResetSession(ctx)
}
func (f *fconn) IsValid() bool { return f.Conn.(driver.Validator).IsValid() }

type frows struct {
	driver.Rows
	c *connector
	q string
}

func (f *frows) Next(dest []driver.Value) error {
	if err := f.c.p.event(f.q); err != nil {
		return err
	}
	return f.Rows.Next(dest)
}

// faults: in the state m, every statement and every row of every operation fails once; the operation
// returns an error (or the right result); writes can be repeated.
func faults(r *core.Run, m *memdb.State, ops []op, nreads int, with func(func(s *server) error) error) {
	r.Parallel("failures of the server", len(ops), func(i int) {
		o := ops[i]
		write := i >= nreads
		mod := memdb.On(m)
		want, werr := o.run(context.Background(), mod)
		if werr != nil {
			return
		}
		after := mod.S.Dump()
		_ = with(func(s *server) error {
			cfg, err := mysqldrv.ParseDSN("root@unix(" + s.sock + ")/" + s.name + "?interpolateParams=true&collation=binary&maxAllowedPacket=1073741824")
			must(err)
			base, err := mysqldrv.NewConnector(cfg)
			must(err)
			c := &connector{base, nil}
			pool := sql.OpenDB(c)
			pool.SetMaxIdleConns(64)
			defer pool.Close()
			conn, err := mysql.NewMysqlDB(pool)
			must(err)
			reset := func() {
				s.load(m)
				if write {
					s.cur = nil
				}
			}
			reset()
			clean := &plan{count: map[string]int{}}
			c.p = clean
			got, err := o.run(context.Background(), conn)
			if err != nil || got != want {
				return nil // reported by the transitions
			}
			for name, n := range clean.count {
				for k := range n {
					for mode := range r.Pick(1, 2) {
						if r.Expired("failures of the server") {
							return nil
						}
						r.Case(fmt.Sprintf("%s fault=%d at %q %d", o.name, mode, name[:min(len(name), 200)], k), nil, func() error {
							reset()
							ctx, cancel := context.WithCancel(context.Background())
							defer cancel()
							c.p = &plan{count: map[string]int{}, name: name, n: k}
							if mode == 1 {
								c.p.cancel = cancel
							}
							got, err := o.run(ctx, conn)
							replayed.Add(1)
							if err == nil && got != want {
								return fmt.Errorf("%s: no error although the server failed; result %.1000q instead of %.1000q", o.name, got, want)
							}
							if !write {
								return nil
							}
							if err == nil {
								if a := s.dump().Dump(); a != after {
									return fmt.Errorf("%s: no error although the server failed, and the tables differ:\n%.3000s\nmodel:\n%.3000s", o.name, diff(a, after), diff(after, a))
								}
								return nil
							}
							c.p = &plan{count: map[string]int{}}
							if _, err = o.run(context.Background(), conn); err != nil {
								return fmt.Errorf("%s: repeating the operation after a failure: %v", o.name, err)
							}
							if a := s.dump().Dump(); a != after {
								return fmt.Errorf("%s: repeated after a failure, the tables differ:\n%.3000s\nmodel:\n%.3000s", o.name, diff(a, after), diff(after, a))
							}
							return nil
						})
					}
				}
			}
			s.cur = nil
			return nil
		})
	})
}
