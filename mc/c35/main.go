// Command c35: configurations are read back as written, and the database and the logs are reached as
// configured. Exhaustive over the values of every field (pairs of fields), every truncation of a file,
// every order of the parts of a connection configuration, and all small configurations of a map server.
package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/pkg/policylog/server/logserver"
	"github.com/netsec-ethz/fpki/pkg/policylog/server/logsigner"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
)

var (
	r    *core.Run
	work string
)

// ---- files

// kind is a kind of configuration.
type kind struct {
	name  string
	zero  func() any
	write func(c any, file string) error
	read  func(c any, file string) error // into c
}

func mk[T any](name string, write func(*T, string) error, read func(*T, string) error) kind {
	return kind{name, func() any { return new(T) },
		func(c any, f string) error { return write(c.(*T), f) },
		func(c any, f string) error { return read(c.(*T), f) }}
}

var kinds = []kind{
	mk("mapserver", func(c *config.Config, f string) error { return config.WriteConfigurationToFile(f, c) },
		func(c *config.Config, f string) error {
			x, err := config.ReadConfigFromFile(f)
			if err == nil {
				*c = *x
			}
			return err
		}),
	mk("responder", responder.SaveConfigToFile, responder.ReadConfigFromFile),
	mk("pca", pca.SaveConfigToFile, pca.ReadConfigFromFile),
	mk("logserver", logserver.SaveLogConfigToFile, logserver.ReadLogConfigFromFile),
	mk("logsigner", logsigner.SaveLogSignerConfigToFile, logsigner.ReadLogSignerConfigFromFile),
	mk("logclient", client.SaveLogClientConfigToFile, client.ReadLogClientConfigFromFile),
	mk("adminclient", client.SaveAdminClientConfigToFile, client.ReadAdminClientConfigFromFile),
}

var texts = []string{"", "x", "https://log/a?b=c&d=<e>", "ü \"quoted\" \\ \n\t\u2028 '", strings.Repeat("long ", 300)}

// values are the alternatives of a field.
func values(t reflect.Type) (l []reflect.Value) {
	add := func(vs ...any) {
		for _, v := range vs {
			l = append(l, reflect.ValueOf(v).Convert(t))
		}
	}
	switch t {
	case reflect.TypeOf(util.TimeOfDayWrap{}):
		add(util.NewTimeOfDay(0, 0, 0, 0), util.NewTimeOfDay(3, 0, 59, 0), util.NewTimeOfDay(23, 59, 59, 999_999_999),
			util.NewTimeOfDay(12, 0, 0, 120_000_000), util.NewTimeOfDay(1, 2, 3, 45_000))
		return
	case reflect.TypeOf(util.DurationWrap{}):
		for _, d := range []time.Duration{0, 1, 1500 * time.Microsecond, time.Second, 90 * time.Minute, 24 * time.Hour, 36 * time.Hour, 7 * 24 * time.Hour, 365 * 24 * time.Hour} {
			add(util.DurationWrap{Duration: d})
		}
		return
	}
	switch t.Kind() {
	case reflect.String:
		for _, x := range texts {
			add(x)
		}
	case reflect.Bool:
		add(false, true)
	case reflect.Int:
		add(0, 1, -1, 8443, math.MaxInt32, math.MinInt64, math.MaxInt64)
	case reflect.Int64:
		add(int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(1<<53+1))
	case reflect.Uint64:
		add(uint64(0), uint64(1), uint64(math.MaxUint64), uint64(1<<53+1))
	case reflect.Float64:
		add(0.0, 1.0, 1.5, -0.1, 1e300, 5e-324)
	case reflect.Slice:
		l = append(l, reflect.Zero(t))
		if t.Elem().Kind() == reflect.Uint8 {
			add([]byte{0}, []byte{0xff, 0, '<', 0x80}, bytes.Repeat([]byte{7, 200}, 600))
			return
		}
		vs := values(t.Elem())
		for i := range vs {
			s := reflect.MakeSlice(t, 0, 2)
			s = reflect.Append(s, vs[i])
			l = append(l, s, reflect.Append(reflect.Append(reflect.MakeSlice(t, 0, 2), vs[i]), vs[(i+1)%len(vs)]))
		}
	case reflect.Map:
		l = append(l, reflect.Zero(t))
		vs := values(t.Elem())
		for i := range vs {
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf("k").Convert(t.Key()), vs[i])
			n := reflect.MakeMap(t)
			n.SetMapIndex(vs[i].Convert(t.Key()), vs[(i+1)%len(vs)])
			n.SetMapIndex(reflect.ValueOf("k").Convert(t.Key()), vs[i])
			l = append(l, m, n)
		}
	case reflect.Pointer:
		l = append(l, reflect.Zero(t))
		for _, v := range values(t.Elem()) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			l = append(l, p)
		}
	case reflect.Struct: // every value of every field, alone and with the other fields set
		for i := 0; i < t.NumField(); i++ {
			for _, v := range values(t.Field(i).Type) {
				for _, filled := range []bool{false, true} {
					x := reflect.New(t).Elem()
					if filled {
						fill(x)
					}
					x.Field(i).Set(v)
					l = append(l, x)
				}
			}
		}
	default:
		r.InternalError("field of type %v", t)
	}
	return
}

// fill sets all fields to something.
func fill(x reflect.Value) {
	for i := 0; i < x.NumField(); i++ {
		vs := values(x.Field(i).Type())
		x.Field(i).Set(vs[len(vs)-1])
	}
}

// norm makes what a file cannot tell apart equal: nil and empty, times of day of different days.
func norm(v reflect.Value) any {
	switch x := v.Interface().(type) {
	case util.TimeOfDayWrap:
		return x.String()
	case util.DurationWrap:
		return x.Duration
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return norm(v.Elem())
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			m[v.Type().Field(i).Name] = norm(v.Field(i))
		}
		return m
	case reflect.Slice:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, norm(v.Index(i)))
		}
		return l
	case reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[k.String()] = norm(v.MapIndex(k))
		}
		return m
	}
	return v.Interface()
}

func same(a, b any) bool {
	return reflect.DeepEqual(norm(reflect.ValueOf(a).Elem()), norm(reflect.ValueOf(b).Elem()))
}

func (k kind) roundTrip(c any, file string) error {
	before := norm(reflect.ValueOf(c).Elem())
	if err := k.write(c, file); err != nil {
		return fmt.Errorf("writing: %w", err)
	}
	if !reflect.DeepEqual(before, norm(reflect.ValueOf(c).Elem())) {
		return fmt.Errorf("writing changes the configuration")
	}
	got := k.zero()
	if err := k.read(got, file); err != nil {
		return fmt.Errorf("reading: %w", err)
	}
	if !same(c, got) {
		a, _ := json.Marshal(c)
		b, _ := json.Marshal(got)
		return fmt.Errorf("written %s, read %s", a, b)
	}
	return nil
}

func files() {
	type job struct {
		k    kind
		i, j int
	}
	var jobs []job
	for _, k := range kinds {
		t := reflect.TypeOf(k.zero()).Elem()
		for i := 0; i < t.NumField(); i++ {
			for j := i; j < t.NumField(); j++ {
				jobs = append(jobs, job{k, i, j})
			}
		}
	}
	r.Parallel("fields", len(jobs), func(n int) {
		j := jobs[n]
		file := filepath.Join(work, fmt.Sprintf("conf%d", n))
		defer os.Remove(file)
		t := reflect.TypeOf(j.k.zero()).Elem()
		vi, vj := values(t.Field(j.i).Type), values(t.Field(j.j).Type)
		if j.i == j.j {
			vj = vj[:1]
		} else if !r.Thorough() {
			cut := func(l []reflect.Value) []reflect.Value { // the large ones only by themselves
				if len(l) > 12 {
					return l[:12]
				}
				return l
			}
			vi, vj = cut(vi), cut(vj)
		}
		for a, x := range vi {
			for b, y := range vj {
				for _, filled := range []bool{false, true} {
					r.Case(fmt.Sprintf("%s %s=%d %s=%d filled=%v", j.k.name, t.Field(j.i).Name, a, t.Field(j.j).Name, b, filled), nil, func() error {
						c := j.k.zero()
						v := reflect.ValueOf(c).Elem()
						if filled {
							fill(v)
						}
						v.Field(j.j).Set(y)
						v.Field(j.i).Set(x)
						return j.k.roundTrip(c, file) // over the one before, longer or shorter
					})
					r.Distinct.Add(1)
				}
			}
		}
	})
	// Damaged and missing files.
	r.Parallel("damage", len(kinds), func(n int) {
		k := kinds[n]
		file := filepath.Join(work, fmt.Sprintf("damaged%d", n))
		defer os.Remove(file)
		for _, filled := range []bool{false, true} {
			c := k.zero()
			if filled {
				fill(reflect.ValueOf(c).Elem())
			}
			if err := k.write(c, file); err != nil {
				r.InternalError("%v", err)
			}
			data, _ := os.ReadFile(file)
			refuse := func(what string, b []byte) {
				r.Case(k.name+" "+what, nil, func() error {
					if err := os.WriteFile(file, b, 0o600); err != nil {
						return err
					}
					if err := k.read(k.zero(), file); err == nil {
						return fmt.Errorf("read without an error: %.200q", b)
					}
					return nil
				})
				r.Distinct.Add(1)
			}
			for i := 0; i < len(data); i++ {
				refuse(fmt.Sprintf("filled=%v cut at %d", filled, i), data[:i])
			}
			refuse(fmt.Sprintf("filled=%v and more", filled), append(slices.Clone(data), '}'))
			refuse(fmt.Sprintf("filled=%v twice", filled), append(slices.Clone(data), data...))
			refuse(fmt.Sprintf("filled=%v list", filled), []byte("["+string(data)+"]"))
			// a field of another type
			var m map[string]any
			if json.Unmarshal(data, &m) == nil {
				for f, v := range m {
					if v == nil {
						continue
					}
					x := map[string]any{}
					for a, b := range m {
						x[a] = b
					}
					if _, ok := v.(bool); ok {
						x[f] = "true"
					} else {
						x[f] = true
					}
					b, _ := json.Marshal(x)
					refuse(fmt.Sprintf("filled=%v, another type of %s", filled, f), b)
				}
			}
		}
		r.Case(k.name+" missing", nil, func() error {
			if err := k.read(k.zero(), file+"-missing"); err == nil {
				return fmt.Errorf("reading a missing file is not an error")
			}
			if err := k.read(k.zero(), work); err == nil {
				return fmt.Errorf("reading a directory is not an error")
			}
			if err := k.write(k.zero(), file+"-missing/x"); err == nil {
				return fmt.Errorf("writing to a missing directory is not an error")
			}
			return nil
		})
	})
}

// ---- connections

// conn is what a connection is expected to use.
type conn struct {
	user, pw, host, port, socket, db string
	defaults                         bool
}

func (c conn) where() string {
	if c.socket != "" {
		return "unix " + c.socket
	}
	h, p := c.host, c.port
	if h == "" {
		h = "127.0.0.1"
	}
	if p == "" {
		p = "3306"
	}
	if h == "::1" {
		h = "[::1]"
	}
	return "tcp " + h + ":" + p
}

// expect judges the sessions of one connection.
func (c conn) expect(l []session) error {
	if len(l) == 0 {
		return fmt.Errorf("no connection was made, expected %+v", c)
	}
	pw := c.pw
	if c.socket != "" {
		pw = "" // not part of the configuration of sockets
	}
	for _, x := range l {
		if x.Bad != "" {
			return fmt.Errorf("%s", x.Bad)
		}
		if x.Where != c.where() || x.User != c.user || x.DB != c.db {
			return fmt.Errorf("connected to %s as %q, database %q, expected %s, %q, %q", x.Where, x.User, x.DB, c.where(), c.user, c.db)
		}
		if !bytes.Equal(x.Auth, token(pw)) {
			return fmt.Errorf("connected with another password than %q", pw)
		}
		if c.defaults {
			set := ""
			for _, s := range x.Statements {
				if strings.HasPrefix(s, "SET ") {
					set += s
				}
			}
			if !strings.Contains(set, "transaction_isolation = 'READ-UNCOMMITTED'") || !strings.Contains(set, "autocommit = true") {
				return fmt.Errorf("settings %q", set)
			}
		}
	}
	return nil
}

func ping(c *db.Configuration) error {
	x, err := mysql.Connect(c)
	if err != nil {
		return err
	}
	defer x.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return x.DB().PingContext(ctx)
}

const keyPrefix = "MYSQL_"

// sequences lists all orders of all subsets of n things.
func sequences(n int) (l [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		l = append(l, slices.Clone(p))
		for i := 0; i < n; i++ {
			if !slices.Contains(p, i) {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	return
}

func connections() {
	s := &server{}
	defer s.close()
	have := map[string]bool{}
	listen := func(network, addr string) {
		if err := s.listen(network, addr); err != nil {
			r.Assume(fmt.Sprintf("connections to %s are left out: %v", addr, err))
			return
		}
		have[network+" "+addr] = true
	}
	// a port that is free at all the addresses
	hosts := []string{"127.0.0.1", "127.7.7.7", "[::1]"}
	port := "3307"
	for p := 42000; p < 42100; p++ {
		free := true
		for _, h := range hosts[:2] {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", h, p))
			if err != nil {
				free = false
				break
			}
			l.Close()
		}
		if free {
			port = fmt.Sprint(p)
			break
		}
	}
	for _, h := range hosts {
		listen("tcp", h+":3306")
		listen("tcp", h+":"+port)
	}
	sockets := []string{filepath.Join(work, "my.sock"), filepath.Join(work, "My SQL%20#1?+a:b.sock")}
	for _, x := range sockets {
		os.Remove(x)
		listen("unix", x)
	}
	type env map[string]string
	var envs []env
	alt := func(vs ...string) []*string {
		l := []*string{nil}
		for i := range vs {
			l = append(l, &vs[i])
		}
		return l
	}
	users, pws := alt("", "Ad_min", "1user", "a-b.c"), alt("", "secret", "p#w?d%2F&x=y/z@h:1 +'\"(q)ü")
	for _, u := range users {
		for _, p := range pws {
			for _, h := range alt("", "127.7.7.7", "[::1]", "::1") {
				for _, q := range alt("", port) {
					if h != nil && (*h == "[::1]" && (q == nil || *q == "") || *h == "::1" && q != nil && *q != "") {
						continue // the driver takes an IPv6 address in brackets exactly if there is a port
					}
					e := env{}
					for k, v := range map[string]*string{"USER": u, "PASSWORD": p, "HOST": h, "PORT": q} {
						if v != nil {
							e[k] = *v
						}
					}
					envs = append(envs, e)
				}
			}
		}
	}
	names := []string{"defaults", "environment", "user", "socket", "db"}
	seqs := sequences(len(names))
	file := filepath.Join(work, "dbconf")
	for ei, e := range envs {
		for _, k := range []string{"USER", "PASSWORD", "HOST", "PORT"} {
			if v, ok := e[k]; ok {
				os.Setenv(keyPrefix+k, v)
			} else {
				os.Unsetenv(keyPrefix + k)
			}
		}
		for si, q := range seqs {
			if !slices.Contains(q, 1) && ei > 0 { // the environment does not matter
				continue
			}
			if !r.Thorough() && len(q) > 3 && ei%7 != si%7 {
				continue
			}
			if r.Stop() || r.Expired("connections") {
				return
			}
			want := conn{db: "fpki"}
			var mods []db.ConfigurationModFunction
			var desc []string
			sock := sockets[(ei+si)%2]
			for _, i := range q {
				desc = append(desc, names[i])
				switch i {
				case 0:
					want.user, want.pw, want.host, want.port, want.defaults = "root", "", "127.0.0.1", "", true
					mods = append(mods, mysql.WithDefaults())
				case 1:
					want.user, want.pw, want.host, want.port = "root", "", "127.0.0.1", ""
					for k, p := range map[string]*string{"USER": &want.user, "PASSWORD": &want.pw, "HOST": &want.host, "PORT": &want.port} {
						if v, ok := e[k]; ok {
							*p = v
						}
					}
					mods = append(mods, mysql.WithEnvironment())
				case 2:
					want.user = "Someone_1"
					mods = append(mods, mysql.WithUser(want.user))
				case 3:
					want.socket = sock
					mods = append(mods, mysql.WithLocalSocket(sock))
				case 4:
					want.db = "My_db-2"
					mods = append(mods, db.WithDB(want.db))
				}
			}
			if !have[want.where()] {
				continue
			}
			r.Case(fmt.Sprintf("connection %v environment %v", desc, e), nil, func() error {
				s.take()
				c := db.NewConfig(mods...)
				if err := config.WriteConfigurationToFile(file, &config.Config{DBConfig: c}); err != nil {
					return err
				}
				for n := 0; n < 2; n++ { // a configuration can be used again
					if err := ping(c); err != nil {
						return fmt.Errorf("connecting (%d. time): %w", n+1, err)
					}
					if err := want.expect(s.take()); err != nil {
						return err
					}
				}
				if c.DBName != want.db {
					return fmt.Errorf("name of the database %q", c.DBName)
				}
				// and as read from a file, before and after its use
				for n := 0; n < 2; n++ {
					x, err := config.ReadConfigFromFile(file)
					if err != nil {
						return err
					}
					if err := ping(x.DBConfig); err != nil {
						return fmt.Errorf("connecting as read from the file: %w", err)
					}
					if err := want.expect(s.take()); err != nil {
						return fmt.Errorf("as read from the file: %w", err)
					}
					if err := config.WriteConfigurationToFile(file, x); err != nil {
						return err
					}
				}
				return nil
			})
			r.Distinct.Add(1)
			r.Outcome(strings.SplitN(want.where(), " ", 2)[0])
		}
	}
	for _, k := range []string{"USER", "PASSWORD", "HOST", "PORT"} {
		os.Unsetenv(keyPrefix + k)
	}
	// Connection strings given as such.
	for _, d := range []struct {
		dsn    string
		values map[string]string
		want   conn
		set    string
	}{
		{"root@unix(" + sockets[0] + ")/x", nil, conn{user: "root", socket: sockets[0], db: "x"}, ""},
		{"root@unix(" + sockets[0] + ")/x?autocommit=true", nil, conn{user: "root", socket: sockets[0], db: "x"}, "autocommit = true"},
		{"root@unix(" + sockets[0] + ")/x?a=1", map[string]string{"b": "'c d&e'"}, conn{user: "root", socket: sockets[0], db: "x"}, "a = 1;b = 'c d&e'"},
		{"root@unix(" + sockets[1] + ")/x", map[string]string{"b": "2", "c": "'é/?'"}, conn{user: "root", socket: sockets[1], db: "x"}, "b = 2;c = 'é/?'"},
		{"U:p?w@tcp(127.7.7.7:" + port + ")/x", map[string]string{"b": "2"}, conn{user: "U", pw: "p?w", host: "127.7.7.7", port: port, db: "x"}, "b = 2"},
		{"U:p?w@tcp(127.7.7.7:" + port + ")/x?c=3", map[string]string{"b": "2"}, conn{user: "U", pw: "p?w", host: "127.7.7.7", port: port, db: "x"}, "b = 2;c = 3"},
	} {
		r.Case(fmt.Sprintf("connection string %s %v", d.dsn, d.values), nil, func() error {
			s.take()
			if err := ping(&db.Configuration{Dsn: d.dsn, Values: d.values}); err != nil {
				return err
			}
			l := s.take()
			if err := d.want.expect(l); err != nil {
				return err
			}
			all := strings.Join(l[0].Statements, " ")
			if d.set != "" {
				for _, x := range strings.Split(d.set, ";") {
					if !strings.Contains(all, x) {
						return fmt.Errorf("settings %q lack %q", all, x)
					}
				}
			}
			return nil
		})
		r.Distinct.Add(1)
	}
	r.Case("no configuration", nil, func() error {
		if _, err := mysql.Connect(nil); err == nil {
			return fmt.Errorf("connected")
		}
		return nil
	})
}

// ---- map servers

func pemFiles(n int) {
	for i := 0; i < n; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			r.InternalError("%v", err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprint("server ", i)}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0)}
		der, err := x509.CreateCertificate(rand.Reader, t, t, k.Public(), k)
		if err != nil {
			r.InternalError("%v", err)
		}
		os.WriteFile(filepath.Join(work, fmt.Sprintf("cert%d", i)), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600)
		os.WriteFile(filepath.Join(work, fmt.Sprintf("key%d", i)), pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}), 0o600)
	}
}

func servers() {
	pemFiles(2)
	s := &server{}
	defer s.close()
	sock := filepath.Join(work, "servers.sock")
	os.Remove(sock)
	if err := s.listen("unix", sock); err != nil {
		r.InternalError("%v", err)
	}
	folder := []string{filepath.Join(work, "f0"), filepath.Join(work, "f1")}
	for _, f := range folder {
		os.MkdirAll(filepath.Join(f, "bundled"), 0o755)
	}
	urls := []string{"https://a.log/x/", "https://b.log/", "https://c.log/y"}
	lists := [][]int{{}}
	for i := 0; i < len(lists); i++ {
		if len(lists[i]) < 3 {
			for u := range urls {
				lists = append(lists, append(slices.Clone(lists[i]), u))
			}
		}
	}
	file := filepath.Join(work, "serverconf")
	pems := []string{"0", "1", "missing"}
	for _, l := range lists {
		for folders := 0; folders < 27; folders++ { // none, the first, the second folder for each of the logs
			for _, cert := range pems {
				for _, key := range pems {
					if (cert != "0" || key != "0") && (len(l) != 2 || folders%5 != 0) {
						continue
					}
					if r.Stop() || r.Expired("servers") {
						return
					}
					conf := &config.Config{
						DBConfig:            db.NewConfig(mysql.WithDefaults(), mysql.WithEnvironment(), mysql.WithLocalSocket(sock), db.WithDB("served")),
						CertificatePemFile:  filepath.Join(work, "cert"+cert),
						PrivateKeyPemFile:   filepath.Join(work, "key"+key),
						HttpAPIPort:         1000 + folders,
						CsvIngestionMaxRows: uint64(7 + folders),
						CertificateFolders:  map[string]string{},
					}
					for _, u := range l {
						conf.CTLogServerURLs = append(conf.CTLogServerURLs, urls[u])
					}
					from := []int{folders % 3, folders / 3 % 3, folders / 9}
					for u, f := range from {
						if f > 0 {
							conf.CertificateFolders[urls[u]] = folder[f-1]
						}
					}
					distinct := map[int]bool{}
					for _, u := range l {
						distinct[u] = true
					}
					good := len(l) > 0 && len(distinct) == len(l) && cert == key && cert != "missing"
					r.Case(fmt.Sprintf("map server logs %v folders %v certificate %s key %s", l, from, cert, key), nil, func() error {
						if err := config.WriteConfigurationToFile(file, conf); err != nil {
							return err
						}
						x, err := config.ReadConfigFromFile(file)
						if err != nil {
							return err
						}
						ctx, cancel := context.WithCancel(context.Background())
						defer cancel()
						s.take()
						m, err := mapserver.NewMapServer(ctx, x)
						if !good {
							if err == nil {
								return fmt.Errorf("the server is made")
							}
							return nil
						}
						if err != nil {
							return err
						}
						defer m.Conn.Close()
						defer m.Updater.Conn.Close()
						if err := (conn{user: "root", socket: sock, db: "served", defaults: true}).expect(s.take()); err != nil {
							return err
						}
						if m.HttpAPIPort != conf.HttpAPIPort || m.Cert.Subject.CommonName != "server "+cert || !m.Key.PublicKey.Equal(m.Cert.PublicKey) {
							return fmt.Errorf("port %d, certificate of %s", m.HttpAPIPort, m.Cert.Subject.CommonName)
						}
						if len(m.Updater.Fetchers) != len(l) {
							return fmt.Errorf("%d logs are fetched", len(m.Updater.Fetchers))
						}
						for i, f := range m.Updater.Fetchers {
							if f.URL() != urls[l[i]] {
								return fmt.Errorf("log %d is %s, configured %s", i, f.URL(), urls[l[i]])
							}
							local, isLocal := f.(*logfetcher.LocalLogFetcher)
							if isLocal != (from[l[i]] > 0) {
								return fmt.Errorf("log %s is read from files: %v, folder %d", f.URL(), isLocal, from[l[i]])
							}
							if isLocal {
								v := reflect.ValueOf(local).Elem()
								found := false
								for j := 0; j < v.NumField(); j++ {
									found = found || v.Field(j).Kind() == reflect.String && v.Field(j).String() == folder[from[l[i]]-1]
								}
								if !found {
									return fmt.Errorf("log %s is not read from its folder", f.URL())
								}
							}
						}
						return nil
					})
					r.Distinct.Add(1)
				}
			}
		}
	}
}

func main() {
	core.Quiet()
	r = core.Start("C35", "exploration")
	r.Rule = "every pair of fields of every kind of configuration over lists of values, every truncation of a file; every order of every subset of the parts of a connection with all environments, against a model of the database server; all map servers over three logs, two folders, keys and certificates"
	work = os.Getenv("VERIF_WORK")
	if work == "" {
		work = os.TempDir()
	}
	work = filepath.Join(work, fmt.Sprintf("c35-%d", os.Getpid()))
	if err := os.MkdirAll(work, 0o755); err != nil {
		r.InternalError("%v", err)
	}
	defer os.RemoveAll(work)
	files()
	connections()
	servers()
	os.RemoveAll(work)
	r.Finish()
}
