package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
)

// server speaks as much of the protocol of the database server as it takes to see who connects, with
// which password, to which database, and with which settings. Every statement succeeds, queries have no rows.
type server struct {
	mu       sync.Mutex
	sessions []*session
	l        []net.Listener
	conns    map[net.Conn]bool
}

type session struct {
	Where      string // the address it came to
	User       string
	Auth       []byte
	DB         string
	Statements []string
	Bad        string
}

var scramble = []byte("0123456789abcdefghij")

// token is what a client with that password answers to the scramble.
func token(pw string) []byte {
	if pw == "" {
		return nil
	}
	a := sha1.Sum([]byte(pw))
	b := sha1.Sum(a[:])
	h := sha1.New()
	h.Write(scramble)
	h.Write(b[:])
	c := h.Sum(nil)
	for i := range c {
		c[i] ^= a[i]
	}
	return c
}

func (s *server) listen(network, addr string) error {
	l, err := net.Listen(network, addr)
	if err != nil {
		return err
	}
	s.mu.Lock()
	s.l = append(s.l, l)
	if s.conns == nil {
		s.conns = map[net.Conn]bool{}
	}
	s.mu.Unlock()
	where := network + " " + addr
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			x := &session{Where: where}
			s.sessions = append(s.sessions, x)
			s.conns[c] = true
			s.mu.Unlock()
			go s.serve(c, x)
		}
	}()
	return nil
}

// take returns the sessions so far, and forgets them.
func (s *server) take() (l []session) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.sessions {
		l = append(l, *x)
	}
	s.sessions = nil
	return
}

func (s *server) close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range s.l {
		l.Close()
	}
	for c := range s.conns {
		c.Close()
	}
	s.l, s.conns = nil, nil
}

func packet(w io.Writer, seq byte, b []byte) {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}
	w.Write(append(h, b...))
}

func readPacket(r io.Reader) (seq byte, b []byte, err error) {
	var h [4]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	b = make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	_, err = io.ReadFull(r, b)
	return h[3], b, err
}

func (s *server) serve(c net.Conn, x *session) {
	defer func() {
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
		c.Close()
	}()
	const capabilities = 0x00000001 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000 | 0x00100000 // incl. CONNECT_WITH_DB, PROTOCOL_41, SECURE, PLUGIN_AUTH
	var g bytes.Buffer
	g.WriteByte(10)
	g.WriteString("8.0.0-model\x00")
	g.Write([]byte{1, 0, 0, 0})
	g.Write(scramble[:8])
	g.WriteByte(0)
	binary.Write(&g, binary.LittleEndian, uint16(capabilities&0xffff))
	g.WriteByte(63)
	g.Write([]byte{2, 0})
	binary.Write(&g, binary.LittleEndian, uint16(capabilities>>16))
	g.WriteByte(21)
	g.Write(make([]byte, 10))
	g.Write(scramble[8:])
	g.WriteByte(0)
	g.WriteString("mysql_native_password\x00")
	packet(c, 0, g.Bytes())
	r := bufio.NewReader(c)
	seq, b, err := readPacket(r)
	if err != nil || len(b) < 33 {
		return
	}
	fail := func(f string, a ...any) {
		s.mu.Lock()
		x.Bad = fmt.Sprintf(f, a...)
		s.mu.Unlock()
		packet(c, seq+1, append([]byte{0xff, 0x15, 4, '#'}, []byte("28000no")...))
	}
	flags := binary.LittleEndian.Uint32(b)
	rest := b[32:]
	cut := func() string {
		i := bytes.IndexByte(rest, 0)
		if i < 0 {
			i = len(rest)
		}
		t := string(rest[:i])
		rest = rest[min(i+1, len(rest)):]
		return t
	}
	user := cut()
	if len(rest) == 0 || int(rest[0]) >= len(rest) {
		fail("handshake without authentication")
		return
	}
	auth := append([]byte{}, rest[1:1+rest[0]]...)
	rest = rest[1+rest[0]:]
	db := ""
	if flags&8 != 0 {
		db = cut()
	}
	s.mu.Lock()
	x.User, x.Auth, x.DB = user, auth, db
	s.mu.Unlock()
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	packet(c, seq+1, ok)
	for {
		_, b, err := readPacket(r)
		if err != nil || len(b) == 0 || b[0] == 1 {
			return
		}
		if b[0] != 3 { // not a statement
			packet(c, 1, ok)
			continue
		}
		q := string(b[1:])
		s.mu.Lock()
		x.Statements = append(x.Statements, q)
		s.mu.Unlock()
		if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "SELECT") {
			packet(c, 1, []byte{1})
			col := []byte("\x03def\x00\x00\x00\x01c\x00\x0c\x3f\x00\xff\x00\x00\x00\xfd\x00\x00\x00\x00\x00")
			packet(c, 2, col)
			packet(c, 3, []byte{0xfe, 0, 0, 2, 0})
			packet(c, 4, []byte{0xfe, 0, 0, 2, 0})
			continue
		}
		packet(c, 1, ok)
	}
}
