// Command c24: constraints of an issuer on the policy certificates below it.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/polx"
)

func labels(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ".")
}

// below says whether name is domain or lies below it, label by label.
func below(name, domain string) bool {
	n, d := labels(name), labels(domain)
	if len(n) < len(d) {
		return false
	}
	n = n[len(n)-len(d):]
	for i := range d {
		if n[i] != d[i] {
			return false
		}
	}
	return true
}

// valid says whether every label of a name is non-empty.
func valid(s string) bool {
	for _, l := range labels(s) {
		if l == "" {
			return false
		}
	}
	return true
}

func main() {
	r := core.Start("C24", "exploration")
	r.Rule = "a child and an issuer are verified together; the case is distinct by issuing permission, relation of the validity periods and pair of domains"
	alpha := []string{"a", "b", "ab", "com"}
	names := []string{""}
	lvl := []string{""}
	for range r.Pick(3, 4) {
		var next []string
		for _, s := range lvl {
			for _, l := range alpha {
				n := l
				if s != "" {
					n = l + "." + s
				}
				next = append(next, n)
			}
		}
		names = append(names, next...)
		lvl = next
	}
	bad := []string{".", "..", "a..com", ".com", "..com", "a.com..", ".a.com"}
	times := []time.Time{polx.T0, polx.T0.Add(1), polx.T0.Add(2), polx.T0.Add(3)}
	key := polx.NewKey("k")
	mk := func(domain string, nb, na time.Time, issue, own bool) *common.PolicyCertificate {
		return common.NewPolicyCertificate(1, 1, domain, nb, na, issue, own, key.Pub, common.RSA, common.SHA256, polx.T0,
			common.PolicyAttributes{}, nil, nil, nil, nil, nil)
	}
	type val struct{ inb, ina, cnb, cna int }
	var vals []val
	for a := range times {
		for b := range times {
			for c := range times {
				for d := range times {
					vals = append(vals, val{a, b, c, d})
				}
			}
		}
	}
	check := func(id, cd string, v val, issue bool, flags int, zone *time.Location) {
		det := map[string]any{"issuerDomain": id, "childDomain": cd, "issuerValidity": []int{v.inb, v.ina}, "childValidity": []int{v.cnb, v.cna}, "issuerCanIssue": issue}
		if r.Case(fmt.Sprintf("issuer %q child %q validity %v canIssue %v flags %d %v", id, cd, v, issue, flags, zone), det, func() error {
			is := mk(id, times[v.inb], times[v.ina], issue, flags&1 != 0)
			ch := mk(cd, times[v.cnb].In(zone), times[v.cna].In(zone), flags&2 != 0, flags&4 != 0)
			bi, bc := polx.Exact(is), polx.Exact(ch)
			err := crypto.VerifyIssuerConstraints(is, ch)
			want := issue && v.cnb >= v.inb && v.cna <= v.ina && valid(id) && valid(cd) && (id == "" || below(cd, id))
			if (err == nil) != want {
				return fmt.Errorf("accepted: %v (error %v), expected %v", err == nil, err, want)
			}
			if polx.Exact(is) != bi || polx.Exact(ch) != bc {
				return fmt.Errorf("verification changed a certificate")
			}
			return nil
		}) {
			r.Distinct.Add(1)
		}
	}
	other := time.FixedZone("x", 5400)
	// every pair of names, within the validity period and one step outside of it
	few := []val{{0, 3, 0, 3}, {1, 2, 1, 2}, {1, 3, 0, 3}, {0, 2, 0, 3}}
	all := append(append([]string{}, names...), bad...)
	r.Parallel("pairs of domains", len(all), func(i int) {
		for _, cd := range all {
			for k, v := range few {
				for _, issue := range []bool{true, false} {
					check(all[i], cd, v, issue, k&7, time.UTC)
				}
			}
		}
	})
	// every relation of the validity periods, with every relation of the names
	rel := [][2]string{{"", ""}, {"", "a.com"}, {"a.com", ""}, {"a.com", "a.com"}, {"a.com", "b.a.com"}, {"a.com", "c.b.a.com"}, {"b.a.com", "a.com"}, {"a.com", "ba.com"},
		{"a.com", "b.com"}, {"a.com", "com"}, {"com", "a.com"}, {"a.com", "a.com.com"}, {"a.com", "a.com.b"}}
	r.Parallel("validity periods", len(rel), func(i int) {
		for _, v := range vals {
			for f := range 16 {
				for _, z := range []*time.Location{time.UTC, other} {
					check(rel[i][0], rel[i][1], v, f&8 == 0, f&7, z)
				}
			}
		}
	})
	r.Assume("names are compared as written: letter case and a trailing dot are part of them (no mixed use is enumerated)")
	r.Finish()
}
