// Package polx takes policy objects apart: their fields, values for each field, copies and a
// canonical description that depends neither on the code under test's encoding nor its equality.
package polx

import (
	"bytes"
	"crypto/rsa"
	"crypto/rand"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/util"
)

// Field is a leaf field of a struct type, found through nested structs.
type Field struct {
	Path  string
	Index []int
	Type  reflect.Type
}

var timeType = reflect.TypeOf(time.Time{})

// Fields lists the leaf fields of a struct type (not the raw encoding kept with an object).
func Fields(t reflect.Type) (l []Field) {
	var rec func(t reflect.Type, path string, idx []int)
	rec = func(t reflect.Type, path string, idx []int) {
		for i := range t.NumField() {
			f := t.Field(i)
			if f.Name == "JSONField" || !f.IsExported() {
				continue
			}
			x := append(idx[:len(idx):len(idx)], i)
			if f.Type.Kind() == reflect.Struct && f.Type != timeType {
				p := path
				if !f.Anonymous {
					p += f.Name + "."
				}
				rec(f.Type, p, x)
				continue
			}
			l = append(l, Field{path + f.Name, x, f.Type})
		}
	}
	rec(t, "", nil)
	return
}

var T0 = time.Date(2023, 3, 4, 5, 6, 7, 89, time.UTC)

// Values lists values of a field type; every pair of them differs as content, except that nil and
// empty slices both appear when alsoEmpty is set.
func Values(f Field, alsoEmpty bool) (l []any) {
	switch {
	case f.Type == timeType:
		l = []any{time.Time{}, T0, T0.Add(1), T0.Add(time.Hour), time.Unix(0, 0).UTC()}
	case f.Type.Kind() == reflect.Bool:
		l = []any{false, true}
	case f.Type.Kind() == reflect.String:
		l = []any{"", "a.com", "b.a.com", "a.com.", "A.com", "<&>\"\\\u2028é", "\x00"}
	case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Uint8:
		l = []any{[]byte(nil), []byte{0}, []byte{0, 0}, []byte{1, 2, 3}, []byte{1, 2, 4}, bytes.Repeat([]byte{7}, 32)}
		if alsoEmpty {
			l = append(l, []byte{})
		}
	case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.String:
		l = []any{[]string(nil), []string{""}, []string{"a"}, []string{"b"}, []string{"a", "b"}, []string{"b", "a"}, []string{"a,b"}, []string{"a", "a", "b"}}
		if alsoEmpty {
			l = append(l, []string{})
		}
	case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Struct: // timestamps
		mk := func(n ...int) any {
			s := reflect.MakeSlice(f.Type, 0, 0)
			for _, k := range n {
				s = reflect.Append(s, Filled(f.Type.Elem(), k))
			}
			return s.Interface()
		}
		l = []any{reflect.Zero(f.Type).Interface(), mk(0), mk(1), mk(2), mk(1, 2), mk(2, 1), mk(1, 1)}
		if alsoEmpty {
			l = append(l, mk())
		}
	case f.Type.Kind() == reflect.Slice && f.Type.Elem().Kind() == reflect.Slice: // hashes
		l = []any{[][]byte(nil), [][]byte{{1}}, [][]byte{{1}, {2}}, [][]byte{{2}, {1}}, [][]byte{{1, 2}}}
	case f.Type.Kind() >= reflect.Int && f.Type.Kind() <= reflect.Uint64:
		for _, n := range []int64{0, 1, 2, -3, 1<<53 + 1} {
			v := reflect.New(f.Type).Elem()
			if f.Type.Kind() >= reflect.Uint {
				if n < 0 {
					continue
				}
				if v.OverflowUint(uint64(n)) {
					continue
				}
				v.SetUint(uint64(n))
			} else {
				if v.OverflowInt(n) {
					continue
				}
				v.SetInt(n)
			}
			l = append(l, v.Interface())
		}
	default:
		panic("no values for " + f.Type.String())
	}
	return
}

// Set returns a copy of the object with one field replaced.
func Set(o reflect.Value, f Field, v any) reflect.Value {
	c := Clone(o)
	c.FieldByIndex(f.Index).Set(Clone(reflect.ValueOf(v)))
	return c
}

// Filled is an object whose every field has its k-th value (0: the zero value).
func Filled(t reflect.Type, k int) reflect.Value {
	o := reflect.New(t).Elem()
	for i, f := range Fields(t) {
		if k == 0 {
			break
		}
		vals := Values(f, false)
		n := 1 + (k-1+i)%(len(vals)-1)
		o.FieldByIndex(f.Index).Set(Clone(reflect.ValueOf(vals[n])))
	}
	return o
}

// Clone copies a value deeply; the result is settable.
func Clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	var rec func(c reflect.Value)
	rec = func(c reflect.Value) {
		switch c.Kind() {
		case reflect.Slice:
			if c.IsNil() {
				return
			}
			n := reflect.MakeSlice(c.Type(), c.Len(), c.Len())
			reflect.Copy(n, c)
			c.Set(n)
			if k := c.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Pointer || k == reflect.Interface {
				for i := range c.Len() {
					rec(c.Index(i))
				}
			}
		case reflect.Struct:
			if c.Type() == timeType {
				return
			}
			for i := range c.NumField() {
				if c.Type().Field(i).IsExported() {
					rec(c.Field(i))
				}
			}
		case reflect.Pointer:
			if !c.IsNil() {
				n := reflect.New(c.Type().Elem())
				n.Elem().Set(c.Elem())
				rec(n.Elem())
				c.Set(n)
			}
		case reflect.Interface:
			if !c.IsNil() {
				c.Set(Clone(c.Elem()))
			}
		}
	}
	rec(c)
	return c
}

// Copy copies a value deeply.
func Copy[T any](v T) T { return Clone(reflect.ValueOf(&v).Elem()).Interface().(T) }

// Canon describes the content of an object: fields that are nil, empty or zero count the same,
// times count as instants, the raw encoding kept with an object does not count. Fields in skip are
// left out (at the top level).
func Canon(o any, skip ...string) string {
	var b strings.Builder
	canon(&b, reflect.ValueOf(o), skip)
	return b.String()
}

func canon(b *strings.Builder, v reflect.Value, skip []string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		canon(b, v.Elem(), skip)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canon(b, v.Elem(), skip)
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := range v.Len() {
			canon(b, v.Index(i), nil)
			b.WriteString(";")
		}
		b.WriteString("]")
	case reflect.Struct:
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			fmt.Fprintf(b, "%d.%d", t.Unix(), t.Nanosecond())
			return
		}
		fmt.Fprintf(b, "%s{", v.Type().Name())
	next:
		for _, f := range Fields(v.Type()) {
			for _, s := range skip {
				if s == f.Path {
					continue next
				}
			}
			fmt.Fprintf(b, "%s=", f.Path)
			canon(b, v.FieldByIndex(f.Index), nil)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

// Exact describes an object including the difference of nil and empty and the raw encoding; used to
// see whether a call changed one of its arguments.
func Exact(o any) string { return fmt.Sprintf("%#v", reflect.Indirect(reflect.ValueOf(o)).Interface()) }

// Key is a signing key and its public part as stored in certificates.
type Key struct {
	Name string
	Priv *rsa.PrivateKey
	Pub  []byte
}

func NewKey(name string) *Key {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil {
		panic(err)
	}
	pub, err := util.RSAPublicToDERBytes(&k.PublicKey)
	if err != nil {
		panic(err)
	}
	return &Key{name, k, pub}
}

// Cert is a policy certificate with its key.
type Cert struct {
	Name string
	Key  *Key
	PC   *common.PolicyCertificate
}

// NewCert builds a certificate that may own and issue.
func NewCert(name, domain string, serial int, k *Key) *Cert {
	pc := common.NewPolicyCertificate(1, serial, domain, T0, T0.Add(1000*time.Hour), true, true, k.Pub,
		common.RSA, common.SHA256, T0, common.PolicyAttributes{AllowedCAs: []string{"CA"}}, nil, nil, nil, nil, nil)
	return &Cert{name, k, pc}
}

// Names lists the paths of the fields of a type.
func Names(t reflect.Type) (l []string) {
	for _, f := range Fields(t) {
		l = append(l, f.Path)
	}
	sort.Strings(l)
	return
}
