// Package mapx runs the real map server (mapserver.NewMapServer) on the relational model of the storage
// and on fake logs.
package mapx

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifmc/fix"
	"github.com/netsec-ethz/fpki/verifmc/memdb"
)

var (
	CertFile, KeyFile string
	Key               *rsa.PrivateKey
	conns             = map[*db.Configuration]db.Conn{}
	mu                sync.Mutex
)

// Setup makes the key material in dir (the check's scratch directory).
func Setup() {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir, _ = os.MkdirTemp("", "verif")
	}
	var err error
	Key, err = rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "map"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &Key.PublicKey, Key)
	if err != nil {
		panic(err)
	}
	CertFile, KeyFile = filepath.Join(dir, fmt.Sprintf("map-cert%d.pem", os.Getpid())), filepath.Join(dir, fmt.Sprintf("map-key%d.pem", os.Getpid()))
	os.WriteFile(CertFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600)
	os.WriteFile(KeyFile, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(Key)}), 0o600)
	mysql.VerifConnect = func(c *db.Configuration) (db.Conn, error) {
		mu.Lock()
		defer mu.Unlock()
		if c, ok := conns[c]; ok {
			return c, nil
		}
		return nil, fmt.Errorf("no database")
	}
}

// Start starts a map server on the storage.
func Start(ctx context.Context, d db.Conn, fetchers ...logfetcher.Fetcher) (*mapserver.MapServer, error) {
	c := &db.Configuration{}
	mu.Lock()
	conns[c] = d
	mu.Unlock()
	defer func() {
		mu.Lock()
		delete(conns, c)
		mu.Unlock()
	}()
	s, err := mapserver.NewMapServer(ctx, &config.Config{
		CTLogServerURLs: []string{"https://log.invalid/"}, DBConfig: c,
		CertificatePemFile: CertFile, PrivateKeyPemFile: KeyFile,
	})
	if err != nil {
		return nil, err
	}
	s.Updater.Fetchers = fetchers
	return s, nil
}

// Log is a fake log: a growing list of leaves.
type Log struct {
	Name  string
	Items []*fix.Cert
	Batch int
	// Fail, if set, may make the delivery of the batch starting at the index fail.
	Fail func(at int) error

	at, end int
	err     error
}

func (l *Log) Initialize(time.Time) error { return nil }
func (l *Log) URL() string                { return l.Name }
func (l *Log) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	return logfetcher.State{Size: uint64(len(l.Items)), STH: []byte(fmt.Sprintf("sth%d", len(l.Items)))}, nil
}
func (l *Log) StartFetching(a, b int64)           { l.at, l.end = int(a), int(b)+1 }
func (l *Log) StopFetching()                      {}
func (l *Log) NextBatch(ctx context.Context) bool { return l.at < l.end }
func (l *Log) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	if l.Fail != nil {
		if err := l.Fail(l.at); err != nil {
			return nil, nil, 0, err
		}
	}
	n := l.Batch
	if n == 0 {
		n = 1
	}
	to := min(l.at+n, l.end)
	var cs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	for _, c := range l.Items[l.at:to] {
		cs = append(cs, *c.C)
		chains = append(chains, c.Chain())
	}
	l.at = to
	return cs, chains, 0, nil
}

// Root is the root of the tree holding the given values: the definition of the tree, computed from
// scratch. nil: empty.
func Root(values map[memdb.ID][]byte) []byte {
	keys := memdb.SortedKeys(values)
	var rec func(k []memdb.ID, height int) []byte
	rec = func(k []memdb.ID, height int) []byte {
		switch len(k) {
		case 0:
			return trie.DefaultLeaf
		case 1:
			return common.SHA256Hash(k[0][:], values[k[0]], []byte{byte(height)})
		}
		bit := 256 - height
		i := 0
		for i < len(k) && k[i][bit/8]&(0x80>>(bit%8)) == 0 {
			i++
		}
		return common.SHA256Hash(rec(k[:i], height-1), rec(k[i:], height-1))
	}
	if len(keys) == 0 {
		return nil
	}
	return rec(keys, 256)
}

// EntriesRoot is the root that belongs to the entries of the state.
func EntriesRoot(s *memdb.State) []byte {
	v := map[memdb.ID][]byte{}
	for d, p := range s.Payloads {
		v[d] = fix.Value(p)
	}
	return Root(v)
}
