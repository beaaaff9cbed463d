// Command c26: policy objects and their encoding.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/google/trillian"
	trilliantypes "github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/polx"
)

// the supported types and the names they have in an encoding
var types = map[string]reflect.Type{
	"pcsr":           reflect.TypeOf(common.PolicyCertificateSigningRequest{}),
	"pc":             reflect.TypeOf(common.PolicyCertificate{}),
	"spct":           reflect.TypeOf(common.SignedPolicyCertificateTimestamp{}),
	"pcrevsr":        reflect.TypeOf(common.PolicyCertificateRevocationSigningRequest{}),
	"pcrev":          reflect.TypeOf(common.PolicyCertificateRevocation{}),
	"spcrevt":        reflect.TypeOf(common.SignedPolicyCertificateRevocationTimestamp{}),
	"trillian.Proof": reflect.TypeOf(trillian.Proof{}),
	"logrootv1":      reflect.TypeOf(trilliantypes.LogRootV1{}),
	"spctsiginput":   reflect.TypeOf(common.SignedEntryTimestampSignatureInput{}),
}

var names = []string{"pcsr", "pc", "spct", "pcrevsr", "pcrev", "spcrevt", "trillian.Proof", "logrootv1", "spctsiginput"}

var anyType = reflect.TypeOf([]any{})

// equal calls the object's own equality, if it has one.
func equal(a, b reflect.Value) (eq, has bool) {
	for _, v := range []reflect.Value{a, a.Addr()} {
		m := v.MethodByName("Equal")
		if !m.IsValid() {
			continue
		}
		arg := b
		if m.Type().In(0).Kind() == reflect.Pointer {
			arg = b.Addr()
		}
		return m.Call([]reflect.Value{arg})[0].Bool(), true
	}
	return false, false
}

// hasRaw says whether objects of the type keep the encoding they were read from.
func hasRaw(t reflect.Type) bool { _, ok := t.FieldByName("JSONField"); return ok }

func raw(v reflect.Value) []byte { return v.FieldByName("JSONField").Bytes() }

var encodings sync.Map // encoding -> type and content

// roundTrip encodes and decodes an object (a struct, a pointer to one, or a list) and compares.
func roundTrip(o any, skip bool) error {
	before := polx.Exact(o)
	data, err := common.ToJSON(o)
	if err != nil {
		return fmt.Errorf("not encoded: %w", err)
	}
	if polx.Exact(o) != before {
		return fmt.Errorf("encoding changed the object")
	}
	desc := fmt.Sprintf("%T %s", o, polx.Canon(o))
	if k := reflect.Indirect(reflect.ValueOf(o)).Kind(); k != reflect.Slice {
		if old, ok := encodings.LoadOrStore(string(data), desc); ok && old != desc {
			return fmt.Errorf("two objects share an encoding:\n%s\n%s", old, desc)
		}
	}
	buf := append([]byte(nil), data...)
	var opts []common.FromJSONModifier
	if skip {
		opts = append(opts, common.WithSkipCopyJSONIntoPolicyObjects)
	}
	d, err := common.FromJSON(buf, opts...)
	if err != nil {
		return fmt.Errorf("not decoded: %w", err)
	}
	for i := range buf { // the caller may use its buffer again
		buf[i] = 'x'
	}
	if err := compare(o, d, data, skip); err != nil {
		return err
	}
	again, err := common.ToJSON(d)
	if err != nil || !bytes.Equal(again, data) {
		return fmt.Errorf("encoding of the decoded object differs (%v):\n%s\n%s", err, data, again)
	}
	return nil
}

// compare checks a decoded object, and the raw encoding it keeps, against the original.
func compare(o, d any, data []byte, skip bool) error {
	vo, vd := reflect.ValueOf(o), reflect.ValueOf(d)
	if vo.Kind() == reflect.Slice {
		if vd.Type() != anyType || vo.Len() != vd.Len() {
			return fmt.Errorf("a list of %d decoded as %T of %d", vo.Len(), d, vd.Len())
		}
		var t struct{ O []json.RawMessage }
		if err := json.Unmarshal(data, &t); err != nil {
			return err
		}
		for i := range vo.Len() {
			if err := compare(vo.Index(i).Interface(), vd.Index(i).Interface(), t.O[i], skip); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		return nil
	}
	if vo.Kind() == reflect.Pointer && vo.Elem().Kind() == reflect.Slice {
		if vd.Kind() != reflect.Pointer || vd.Elem().Type() != anyType {
			return fmt.Errorf("a pointer to a list decoded as %T", d)
		}
		return compare(vo.Elem().Interface(), vd.Elem().Interface(), data, skip)
	}
	if vo.Type() != vd.Type() {
		return fmt.Errorf("%T decoded as %T", o, d)
	}
	if polx.Canon(o) != polx.Canon(d) {
		return fmt.Errorf("content changed:\n%s\n%s", polx.Canon(o), polx.Canon(d))
	}
	if vo.Kind() == reflect.Pointer {
		vo, vd = vo.Elem(), vd.Elem()
	}
	a, b := polx.Clone(vo), polx.Clone(vd)
	for _, p := range [][2]reflect.Value{{a, b}, {b, a}} {
		if eq, has := equal(p[0], p[1]); has && !eq {
			return fmt.Errorf("the decoded object is not equal to the original: %s", polx.Canon(o))
		}
	}
	if hasRaw(vd.Type()) {
		switch got := raw(vd); {
		case skip && got != nil:
			return fmt.Errorf("keeps its encoding although told not to")
		case !skip && !bytes.Equal(got, data):
			return fmt.Errorf("keeps another encoding than the one it was read from: %.100q", got)
		}
		if m, ok := d.(common.MarshallableDocument); ok && !skip && vd.Type() != types["spctsiginput"] { // that one has no Raw
			if rw, err := m.Raw(); err != nil || !bytes.Equal(rw, data) {
				return fmt.Errorf("Raw of the decoded object differs from its encoding (%v): %.100q", err, rw)
			}
		}
	}
	return nil
}

// expect decodes with the standard library alone: the oracle for damaged encodings.
func expect(data []byte) (any, error) {
	var t struct {
		T string
		O json.RawMessage
	}
	if err := json.Unmarshal(data, &t); err != nil {
		return nil, err
	}
	name, isPtr := t.T, false
	if _, ok := types[name]; !ok && name != "[]" && strings.HasPrefix(name, "*") {
		name, isPtr = name[1:], true
	}
	var p reflect.Value
	if name == "[]" {
		var l []json.RawMessage
		if err := json.Unmarshal(t.O, &l); err != nil {
			return nil, err
		}
		res := make([]any, len(l))
		for i, e := range l {
			x, err := expect(e)
			if err != nil {
				return nil, err
			}
			res[i] = x
		}
		p = reflect.New(anyType)
		p.Elem().Set(reflect.ValueOf(res))
	} else {
		ty, ok := types[name]
		if !ok {
			return nil, fmt.Errorf("unknown type %q", t.T)
		}
		p = reflect.New(ty)
		if err := json.Unmarshal(t.O, p.Interface()); err != nil {
			return nil, err
		}
	}
	if isPtr {
		return p.Interface(), nil
	}
	return p.Elem().Interface(), nil
}

func damaged(data []byte) error {
	buf := append([]byte(nil), data...)
	got, err := common.FromJSON(buf)
	want, werr := expect(data)
	if (err == nil) != (werr == nil) {
		return fmt.Errorf("decoding %.300q: error %v, expected %v", data, err, werr)
	}
	if err != nil {
		return nil
	}
	if reflect.TypeOf(got) != reflect.TypeOf(want) || polx.Canon(got) != polx.Canon(want) {
		return fmt.Errorf("decoding %.300q gives %T %s, expected %T %s", data, got, polx.Canon(got), want, polx.Canon(want))
	}
	return nil
}

type obj struct {
	name string
	v    reflect.Value
}

// objects lists the values of one type: all fields at their k-th value, and one field changed.
func objects(name string, k int, pairs bool) (l []obj) {
	t := types[name]
	b := polx.Filled(t, k)
	l = append(l, obj{fmt.Sprintf("%s/%d", name, k), b})
	fs := polx.Fields(t)
	for i, f := range fs {
		for x, v := range polx.Values(f, false) {
			o := polx.Set(b, f, v)
			n := fmt.Sprintf("%s/%d/%s=%d", name, k, f.Path, x)
			l = append(l, obj{n, o})
			if !pairs {
				continue
			}
			for _, g := range fs[:i] {
				for y, w := range polx.Values(g, false) {
					l = append(l, obj{fmt.Sprintf("%s,%s=%d", n, g.Path, y), polx.Set(o, g, w)})
				}
			}
		}
	}
	return
}

func main() {
	r := core.Start("C26", "exploration")
	r.Rule = "an object, list or damaged encoding is encoded and decoded; a case is distinct by type, field values or the edit"
	ptr := func(v reflect.Value) any { return polx.Clone(v).Addr().Interface() }
	r.Parallel("objects", len(names)*4, func(i int) {
		name, k := names[i%len(names)], i/len(names)
		for _, o := range objects(name, k, r.Thorough() || k == 1) {
			if r.Expired("objects") {
				return
			}
			for _, skip := range []bool{false, true} {
				if r.Case(fmt.Sprintf("object %s skip=%v", o.name, skip), nil, func() error {
					if err := roundTrip(polx.Clone(o.v).Interface(), skip); err != nil {
						return err
					}
					return roundTrip(ptr(o.v), skip)
				}) {
					r.Distinct.Add(1)
				}
			}
		}
	})
	// an object made in this process and one read back are equal in any zone, with and without clock readings
	zones := []*time.Location{time.UTC, time.Local, time.FixedZone("", 3600), time.FixedZone("x", -5400)}
	for _, name := range names {
		t := types[name]
		for _, f := range polx.Fields(t) {
			if f.Type != reflect.TypeOf(time.Time{}) {
				continue
			}
			for zi, z := range zones {
				for ti, tm := range []time.Time{polx.T0, time.Now(), {}} {
					r.Case(fmt.Sprintf("zone %s %s %d %d", name, f.Path, zi, ti), nil, func() error {
						a := polx.Set(polx.Filled(t, 1), f, tm)
						b := polx.Set(polx.Filled(t, 1), f, tm.In(z))
						for _, p := range [][2]reflect.Value{{a, b}, {b, a}} {
							if eq, has := equal(p[0], p[1]); has && !eq {
								return fmt.Errorf("the same instant in another zone makes objects different")
							}
						}
						return roundTrip(b.Interface(), false)
					})
				}
			}
		}
	}
	// equality: equal objects have the same content and the other way round
	r.Parallel("equality", len(names), func(i int) {
		var l []obj
		for k := range r.Pick(3, 5) {
			l = append(l, objects(names[i], k, false)...)
		}
		for x, a := range l {
			for _, b := range l[x:] {
				if r.Case("equal "+a.name+" "+b.name, nil, func() error {
					want := polx.Canon(a.v.Interface()) == polx.Canon(b.v.Interface())
					eq, has := equal(a.v, b.v)
					eq2, _ := equal(b.v, a.v)
					if has && (eq != want || eq2 != want) {
						return fmt.Errorf("compared as %v and %v, expected %v\n%s\n%s", eq, eq2, want, polx.Canon(a.v.Interface()), polx.Canon(b.v.Interface()))
					}
					return nil
				}) {
					r.Distinct.Add(1)
				}
			}
		}
	})
	// lists of all kinds, nested ones too
	var elems []any
	for _, n := range names {
		for _, k := range []int{0, 1} {
			elems = append(elems, polx.Filled(types[n], k).Interface(), ptr(polx.Filled(types[n], k)))
		}
	}
	list := func(k string, l any) {
		for _, skip := range []bool{false, true} {
			if r.Case(fmt.Sprintf("list %s skip=%v", k, skip), nil, func() error { return roundTrip(l, skip) }) {
				r.Distinct.Add(1)
			}
		}
	}
	list("empty", []any{})
	list("empty documents", []common.PolicyDocument{})
	list("nil documents", []common.PolicyDocument(nil))
	list("pointer to empty", &[]any{})
	for i, a := range elems {
		list(fmt.Sprint(i), []any{a})
		list(fmt.Sprintf("[%d]", i), []any{[]any{a}})
		p := []any{a}
		list(fmt.Sprintf("*%d", i), &p)
		for j, b := range elems {
			list(fmt.Sprintf("%d %d", i, j), []any{a, b})
			list(fmt.Sprintf("%d [%d]", i, j), []any{a, []any{b, []any{}}})
			list(fmt.Sprintf("*[%d] %d", i, j), []any{&p, b})
		}
	}
	for k := range 4 {
		n := func(v string) reflect.Value { return polx.Filled(types[v], k) }
		mk := func(v reflect.Value) any {
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
			return reflect.Append(s, v, polx.Clone(v)).Interface()
		}
		for _, v := range names {
			list(fmt.Sprintf("typed %s %d", v, k), mk(n(v)))
			list(fmt.Sprintf("typed *%s %d", v, k), mk(polx.Clone(n(v)).Addr()))
		}
		list(fmt.Sprint("documents ", k), []common.PolicyDocument{ptr(n("pc")).(common.PolicyDocument), ptr(n("pcrev")).(common.PolicyDocument), ptr(n("pcsr")).(common.PolicyDocument)})
	}

	// objects that are not supported are refused
	for i, o := range []any{nil, 1, "x", true, 1.5, map[string]int{}, struct{}{}, []byte{1}, []int{1}, []any{nil}, []any{1}, func() {}, (*common.PolicyCertificate)(nil),
		(*int)(nil), []*common.PolicyCertificate{nil}, []common.PolicyDocument{nil}, time.Time{}, common.PolicyAttributes{}} {
		r.Case(fmt.Sprintf("unsupported %d %T", i, o), nil, func() error {
			if d, err := common.ToJSON(o); err == nil {
				return fmt.Errorf("%T encoded as %s", o, d)
			}
			return nil
		})
	}

	// damaged encodings
	var enc [][]byte
	add := func(o any) {
		d, err := common.ToJSON(o)
		if err != nil {
			r.InternalError("%v", err)
			return
		}
		enc = append(enc, d)
	}
	for _, n := range names {
		add(polx.Filled(types[n], 0).Interface())
		add(ptr(polx.Filled(types[n], 1)))
	}
	add([]any{elems[1], elems[5]})
	add([]any{[]any{elems[0]}, []any{}})
	alpha := []byte(`"{}[],:*0 n\Tx` + "\x00\x80")
	r.Parallel("damaged encodings", len(enc), func(i int) {
		e := enc[i]
		try := func(k string, d []byte) {
			if r.Expired("damaged encodings") {
				return
			}
			if r.Case(fmt.Sprintf("damaged %d %s", i, k), nil, func() error { return damaged(d) }) {
				r.Distinct.Add(1)
			}
		}
		try("whole", e)
		for p := range len(e) + 1 {
			try(fmt.Sprint("cut ", p), e[:p])
			if p < len(e) {
				try(fmt.Sprint("from ", p), e[p:])
				try(fmt.Sprint("without ", p), append(append([]byte{}, e[:p]...), e[p+1:]...))
			}
			for _, a := range alpha {
				try(fmt.Sprint("insert ", p, a), append(append(append([]byte{}, e[:p]...), a), e[p:]...))
				if p < len(e) && e[p] != a {
					x := append([]byte{}, e...)
					x[p] = a
					try(fmt.Sprint("replace ", p, a), x)
				}
			}
			if r.Thorough() {
				for q := p + 1; q <= len(e); q++ {
					try(fmt.Sprint("drop ", p, q), append(append([]byte{}, e[:p]...), e[q:]...))
				}
			}
		}
		// every payload under every type name
		var t struct {
			T string
			O json.RawMessage
		}
		json.Unmarshal(e, &t)
		for _, n := range append([]string{"", "[]", "*", "**pc", "PC", "pc ", "nil", "x"}, names...) {
			for _, s := range []string{"", "*", "**"} {
				for _, o := range []string{string(t.O), "null", "{}", "[]", "[null]", "[{}]", `""`, "0", "true"} {
					q, _ := json.Marshal(s + n)
					try("type "+s+n+" "+o, []byte(fmt.Sprintf(`{"T":%s,"O":%s}`, q, o)))
				}
				try("type only "+s+n, []byte(fmt.Sprintf(`{"T":%q}`, s+n)))
			}
		}
	})
	for _, s := range []string{"", "null", "{}", "[]", "0", `""`, "true", `{"O":{}}`, `{"T":1,"O":{}}`, `{"T":null,"O":null}`, `{"t":"pc","o":{}}`, `{"T":"pc","O":{"Unknown":1}}`,
		`{"T":"pc","O":{"Version":"x"}}`, `{"T":"pc","O":{"NotBefore":"x"}}`, `{"T":"pc","O":{"PublicKey":"!"}}`, `{"T":"pc","O":{"Version":1e30}}`, `{"T":"pc","T":"pcsr","O":{}}`,
		`{"T":"pc","O":{}} `, `{"T":"pc","O":{}}{}`} {
		r.Case("text "+s, nil, func() error { return damaged([]byte(s)) })
	}

	// files
	dir := os.Getenv("VERIF_WORK")
	readers := map[string]func(string) (any, error){
		"pc":             func(p string) (any, error) { return common.JsonFileToPolicyCert(p) },
		"spct":           func(p string) (any, error) { return common.JsonFileToSPT(p) },
		"trillian.Proof": func(p string) (any, error) { return common.JsonFileToProof(p) },
		"logrootv1":      func(p string) (any, error) { return common.JsonFileToSTH(p) },
	}
	for _, n := range names {
		for k := range 2 {
			r.Case(fmt.Sprintf("file %s %d", n, k), nil, func() error {
				file := filepath.Join(dir, "object.json")
				o := ptr(polx.Filled(types[n], k))
				if err := common.ToJSONFile(o, file); err != nil {
					return err
				}
				data, err := common.ToJSON(o)
				if err != nil {
					return err
				}
				d, err := common.FromJSONFile(file)
				if err != nil {
					return err
				}
				if err := compare(o, d, data, false); err != nil {
					return err
				}
				for rn, f := range readers {
					d, err := f(file)
					if (err == nil) != (rn == n) {
						return fmt.Errorf("%s read as %s: %v", n, rn, err)
					}
					if err == nil {
						if err := compare(o, d, data, false); err != nil {
							return err
						}
					}
				}
				if err := common.ToJSONFile(42, file); err == nil {
					return fmt.Errorf("42 written to a file")
				}
				return nil
			})
		}
	}
	r.Assume("texts in policy objects are valid UTF-8; years lie between 0 and 9999; the oracle for damaged encodings is encoding/json on the plain types")
	r.Finish()
}
