// Command c27: decisions of policy attributes on domains.
package main

import (
	"fmt"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/verifmc/core"
)

// decide is the documented rule for attributes without duplicate labels.
func decide(a common.PolicyAttributes, base, name string) common.PolicyAttributeDomainValidityResult {
	cut := func(s string) []string { return strings.Split(strings.TrimSuffix(s, "."), ".") }
	b, n := cut(base), cut(name)
	if len(n) <= len(b) {
		return common.PolicyAttributeDomainNotApplicable
	}
	for i := range b {
		if n[len(n)-len(b)+i] != b[i] {
			return common.PolicyAttributeDomainNotApplicable
		}
	}
	label := n[len(n)-len(b)-1]
	for _, l := range []string{label, "*"} {
		for _, x := range a.AllowedSubdomains {
			if x == l {
				return common.PolicyAttributeDomainAllowed
			}
		}
		for _, x := range a.DisallowedSubdomains {
			if x == l {
				return common.PolicyAttributeDomainDisallowed
			}
		}
		for _, x := range a.ExcludedSubdomains {
			if x == l {
				return common.PolicyAttributeDomainExcluded
			}
		}
	}
	return common.PolicyAttributeDomainAllowed
}

// lists returns all lists of up to n labels, repetitions included.
func lists(labels []string, n int) (l [][]string) {
	l = [][]string{nil}
	level := l
	for range n {
		var next [][]string
		for _, x := range level {
			for _, s := range labels {
				next = append(next, append(x[:len(x):len(x)], s))
			}
		}
		l = append(l, next...)
		level = next
	}
	return
}

func unique(l ...[]string) (n, dup int) {
	m := map[string]bool{}
	for _, x := range l {
		for _, s := range x {
			n++
			m[s] = true
		}
	}
	return n, n - len(m)
}

func exact(a common.PolicyAttributes) string { return fmt.Sprintf("%#v", a) }

func main() {
	r := core.Start("C27", "exploration")
	r.Rule = "attributes are asked about every name; a case is distinct by its lists of labels"
	labels := []string{"a", "b", "*"}
	if r.Thorough() {
		labels = append(labels, "ab")
	}
	ls := lists(labels, 2)
	name := []string{"a", "b", "c", "ab", "com"}
	var names []string
	level := []string{""}
	for range 4 {
		var next []string
		for _, s := range level {
			for _, n := range name {
				x := n
				if s != "" {
					x += "." + s
				}
				next = append(next, x)
			}
		}
		names = append(names, next...)
		level = next
	}
	bases := []string{"com", "a.com", "b.a.com", "ab.com"}
	dots := []string{"", "."}
	r.Parallel("attributes", len(ls)*len(ls), func(i int) {
		for _, ex := range ls {
			a := common.PolicyAttributes{AllowedSubdomains: ls[i/len(ls)], DisallowedSubdomains: ls[i%len(ls)], ExcludedSubdomains: ex}
			if !r.Case(fmt.Sprintf("allowed %q disallowed %q excluded %q", a.AllowedSubdomains, a.DisallowedSubdomains, ex), a, func() error {
				before := exact(a)
				_, dup := unique(a.AllowedSubdomains, a.DisallowedSubdomains, ex)
				err := a.ValidateAttributes()
				if (err != nil) != (dup > 0) {
					return fmt.Errorf("validated with %v, expected %d duplicates", err, dup)
				}
				if err != nil && !strings.Contains(" "+err.Error()+" ", fmt.Sprintf(" %d ", dup)) {
					return fmt.Errorf("the message %q does not name the %d duplicates", err, dup)
				}
				wants := 0
				for _, b := range bases {
					for _, n := range names {
						want := decide(a, b, n)
						if dup > 0 && want != common.PolicyAttributeDomainNotApplicable {
							continue // contradictory attributes: the decision is not specified
						}
						for _, d1 := range dots {
							for _, d2 := range dots {
								if got := a.CheckDomainValidity(b+d1, n+d2); got != want {
									return fmt.Errorf("%q below %q: decided %d, expected %d", n+d2, b+d1, got, want)
								}
								wants++
							}
						}
					}
				}
				r.AddExtra("decisions", int64(wants))
				if exact(a) != before {
					return fmt.Errorf("the attributes were changed")
				}
				return nil
			}) && r.Stop() {
				return
			}
			r.Distinct.Add(1)
		}
	})
	cas := lists([]string{"CA1", "CA2", ""}, 4)
	for _, l := range cas {
		for _, s := range [][]string{nil, {"CA1"}, {"a", "a"}} {
			if r.Case(fmt.Sprintf("CAs %q subdomains %q", l, s), nil, func() error {
				a := common.PolicyAttributes{AllowedCAs: l, AllowedSubdomains: s}
				_, d1 := unique(l)
				_, d2 := unique(s)
				err := a.ValidateAttributes()
				if (err != nil) != (d1+d2 > 0) {
					return fmt.Errorf("validated with %v, expected %d and %d duplicates", err, d1, d2)
				}
				if err != nil && !strings.Contains(" "+err.Error()+" ", fmt.Sprintf(" %d ", d1)) && !strings.Contains(" "+err.Error()+" ", fmt.Sprintf(" %d ", d2)) {
					return fmt.Errorf("the message %q does not name the %d or %d duplicates", err, d1, d2)
				}
				return nil
			}) {
				r.Distinct.Add(1)
			}
		}
	}
	r.Assume("names and labels are compared as written and have no empty labels; the decision for attributes that name one label twice is not specified")
	r.Finish()
}
