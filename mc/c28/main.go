// Command c28: validation of domain names and computation of the covering domains.
package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"golang.org/x/net/publicsuffix"

	"github.com/netsec-ethz/fpki/pkg/domain"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
)

func alnum(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func label(l string) bool {
	if len(l) < 1 || len(l) > 63 {
		return false
	}
	for i := 0; i < len(l); i++ {
		if !alnum(l[i]) && (l[i] != '-' || i == 0 || i == len(l)-1) {
			return false
		}
	}
	return true
}

// suffix reports whether name is exactly an ICANN public suffix.
func suffix(name string) bool {
	s, icann := publicsuffix.PublicSuffix(name)
	return icann && s == name
}

// valid is the documented notion of a name.
func valid(name string) bool {
	if len(name) > 255 || suffix(name) {
		return false
	}
	for i, l := range strings.Split(name, ".") {
		if !label(l) && !(i == 0 && l == "*" && strings.Contains(name, ".")) {
			return false
		}
	}
	return true
}

func strip(name string) string {
	name = strings.TrimPrefix(name, "*.")
	if r, ok := strings.CutPrefix(name, "www."); ok && r != "" {
		if s, icann := publicsuffix.PublicSuffix(name); icann && s == r {
			return name // www is itself the registered name
		}
		name = r
	}
	return name
}

// covering returns the expected result of parsing the name, nil for an error.
func covering(name string) []string {
	if !valid(name) {
		return nil
	}
	name = strip(name)
	sfx, icann := publicsuffix.PublicSuffix(name)
	if !icann {
		return []string{name}
	}
	if sfx == name {
		return nil
	}
	labels := strings.Split(name, ".")
	var res []string
	for n := strings.Count(sfx, ".") + 2; n <= len(labels); n++ {
		res = append(res, strings.Join(labels[len(labels)-n:], "."))
	}
	return res
}

// affected returns the expected set of affected domains.
func affected(names []string) []string {
	set := map[string]bool{}
	for _, n := range names {
		if valid(n) {
			set[strip(n)] = true
		}
	}
	if len(set) > 4 {
		groups := map[string][]string{}
		for n := range set {
			l := covering(n)
			if !icann(n) {
				l = []string{n}
			}
			if len(l) == 0 {
				continue // only a public suffix is left
			}
			groups[l[0]] = append(groups[l[0]], n)
		}
		set = map[string]bool{}
		for base, g := range groups {
			// The longest common ancestor, compared by labels.
			a := strings.Split(g[0], ".")
			for _, n := range g[1:] {
				b := strings.Split(n, ".")
				k := 0
				for k < len(a) && k < len(b) && a[len(a)-1-k] == b[len(b)-1-k] {
					k++
				}
				a = a[len(a)-k:]
			}
			if s := strings.Join(a, "."); len(s) >= len(base) {
				set[s] = true
			} else {
				set[base] = true
			}
		}
	}
	var l []string
	for n := range set {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func icann(name string) bool {
	_, i := publicsuffix.PublicSuffix(name)
	return i
}

func one(name string) error {
	want := covering(name)
	if got := domain.IsValidDomain(name); got != valid(name) {
		return fmt.Errorf("considered valid: %v", got)
	}
	got, err := domain.ParseDomainName(name)
	if want == nil {
		if err == nil {
			return fmt.Errorf("parsed as %q, expected an error", got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("refused with %v, expected %q", err, want)
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("parsed as %q, expected %q", got, want)
	}
	// Every covering domain is covered by its own ancestors only.
	for i, d := range got {
		if strip(d) != d {
			continue // the name below is a www name again
		}
		sub, err := domain.ParseDomainName(d)
		if err != nil || !slices.Equal(sub, got[:i+1]) {
			return fmt.Errorf("its covering domain %q is covered by %q, %v", d, sub, err)
		}
	}
	return nil
}

func names(labels []string, n int) []string {
	l := slices.Clone(labels)
	level := l
	for range n - 1 {
		var next []string
		for _, x := range level {
			for _, s := range labels {
				next = append(next, s+"."+x)
			}
		}
		l = append(l, next...)
		level = next
	}
	return l
}

func sorted(l []string) []string {
	l = slices.Clone(l)
	sort.Strings(l)
	return l
}

func main() {
	r := core.Start("C28", "exploration")
	r.Rule = "every name over the alphabet of labels is parsed; every list of names is a certificate and a list of names; distinct by the name or list"
	l63, l64 := strings.Repeat("x", 63), strings.Repeat("y", 64)
	labels := []string{"a", "b", "www", "*", "com", "co", "uk", "io", "github", "a-b", "-a", "a-", "-", "", "ck", "A", "a_b", "xn--p1ai", l63, l64}
	depth := r.Pick(4, 5)
	if r.Thorough() {
		labels = append(labels, "WWW", "jp", "kawasaki", "city", "9", "\u00e9", "a b", "*a")
	}
	list := names(labels, depth-1)
	base := len(list)
	total := base + base*len(labels)
	// The names of the deepest level are computed instead of stored.
	first := base - pow(len(labels), depth-1)
	r.Parallel("names", (total+999)/1000, func(chunk int) {
		for i := chunk * 1000; i < min(total, chunk*1000+1000); i++ {
			name := ""
			if i < base {
				name = list[i]
			} else {
				k := i - base
				if first+k/len(labels) >= base {
					return
				}
				name = labels[k%len(labels)] + "." + list[first+k/len(labels)]
			}
			if !r.Case(name, nil, func() error { return one(name) }) && r.Stop() {
				return
			}
			r.Distinct.Add(1)
		}
	})
	// Labels by character: every text of up to n characters over one of each kind.
	chars := []string{"a", "Z", "0", "-", "*", ".", "_", " ", "\u00e9", "\x00", "w"}
	level := []string{""}
	for range r.Pick(5, 6) {
		var next []string
		for _, x := range level {
			for _, c := range chars {
				next = append(next, x+c)
			}
		}
		r.Parallel("characters", (len(next)+999)/1000, func(c int) {
			for _, n := range next[c*1000 : min(len(next), c*1000+1000)] {
				for _, name := range []string{n, n + ".com"} {
					r.Case(name, nil, func() error { return one(name) })
					r.Distinct.Add(1)
				}
			}
		})
		level = next
		if r.Stop() {
			break
		}
	}
	// Lengths: labels up to 65 bytes, names up to 260 bytes.
	for n := 1; n <= 65; n++ {
		for _, s := range []string{"", ".com", ".a.com", ".co.uk"} {
			for _, p := range []string{"", "*.", "www.", "*.www."} {
				name := p + strings.Repeat("a", n) + s
				r.Case(name, nil, func() error { return one(name) })
				r.Distinct.Add(1)
			}
		}
	}
	for n := 240; n <= 262; n++ {
		for _, step := range []int{1, 2, 30, 63} {
			for _, p := range []string{"", "*.", "www."} {
				var b strings.Builder
				b.WriteString(p)
				for b.Len() < n-4 {
					k := min(step, n-4-b.Len())
					if n-4-b.Len()-k == 1 && k > 1 { // leave no empty label behind
						k--
					}
					b.WriteString(strings.Repeat("a", k))
					if b.Len() < n-4 {
						b.WriteString(".")
					}
				}
				name := b.String()
				if strings.HasSuffix(name, ".") {
					name = name[:len(name)-1] + "a"
				}
				name += ".com"
				r.Case(fmt.Sprintf("length %d step %d prefix %q", len(name), step, p), name, func() error { return one(name) })
				r.Distinct.Add(1)
			}
		}
	}
	// Lists of names: the names of a certificate, and the affected domains.
	pool := []string{"a.com", "www.a.com", "*.a.com", "b.a.com", "c.b.a.com", "d.b.a.com", "x.co.uk", "y.x.co.uk", "com", "*.com", "bad_name", "foo", "bar.foo", "", "www.com", "e.github.io", "A.com", "ab.com"}
	max := r.Pick(3, 4)
	lists := [][]string{nil}
	prev := lists
	for range max {
		var next [][]string
		for _, x := range prev {
			for _, n := range pool {
				next = append(next, append(x[:len(x):len(x)], n))
			}
		}
		lists = append(lists, next...)
		prev = next
	}
	r.Parallel("certificates", (len(lists)+99)/100, func(c int) {
		for _, l := range lists[c*100 : min(len(lists), c*100+100)] {
			r.Case(fmt.Sprintf("certificate %q", l), nil, func() error { return cert(l) })
			r.Distinct.Add(1)
		}
	})
	// Sets of names: all subsets of the pool, in ascending and descending order.
	stderr := os.Stderr
	os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // one warning for each name that cannot be split
	sets := func(what string, pool []string) {
		r.Parallel(what, 1<<len(pool)/256, func(c int) {
			for m := c * 256; m < c*256+256; m++ {
				var l []string
				for i := range pool {
					if m>>i&1 == 1 {
						l = append(l, pool[i])
					}
				}
				for range 2 {
					if !r.Case(fmt.Sprintf("affected%s %q", what[4:], l), nil, func() error {
						in := slices.Clone(l)
						got := sorted(domain.ExtractAffectedDomains(in))
						if want := affected(l); !slices.Equal(got, want) {
							return fmt.Errorf("affected domains are %q, expected %q", got, want)
						}
						if !slices.Equal(in, l) {
							return fmt.Errorf("the list was changed")
						}
						return nil
					}) && r.Stop() {
						return
					}
					r.Distinct.Add(1)
					slices.Reverse(l)
				}
			}
		})
	}
	sets("sets", pool)
	// many names below one registrable domain
	many := []string{"other.org"}
	for _, a := range []string{"a", "b"} {
		many = append(many, a+".x.com")
		for _, b := range []string{"a", "b"} {
			many = append(many, b+"."+a+".x.com")
			for _, c := range []string{"a", "b"} {
				many = append(many, c+"."+b+"."+a+".x.com")
			}
		}
	}
	sets("sets below one domain", many)
	os.Stderr = stderr
	r.Assume("the public suffix list is the one compiled into golang.org/x/net/publicsuffix, which serves as reference; names are compared as written (no case folding)")
	r.Finish()
}

func pow(b, n int) int {
	x := 1
	for range n {
		x *= b
	}
	return x
}

// cert checks a certificate whose common name is the first name, and one without common name.
func cert(l []string) error {
	for cn := 0; cn < 2; cn++ {
		c := &ctx509.Certificate{DNSNames: l}
		subject := ""
		for _, n := range l {
			if n != "" {
				subject = n
				break
			}
		}
		want := map[string]bool{}
		if cn == 1 {
			if len(l) == 0 {
				continue
			}
			c = &ctx509.Certificate{Subject: pkix.Name{CommonName: l[0]}, DNSNames: l[1:]}
			if l[0] != "" {
				want[l[0]] = true
			}
			for _, n := range l[1:] {
				want[n] = true
			}
		} else {
			for _, n := range l {
				want[n] = true
			}
		}
		var w []string
		for n := range want {
			w = append(w, n)
		}
		sort.Strings(w)
		if got := sorted(util.ExtractCertDomains(c)); !slices.Equal(got, w) {
			return fmt.Errorf("its names are %q, expected %q", got, w)
		}
		if got := domain.CertSubjectName(c); got != subject {
			return fmt.Errorf("its subject is %q, expected %q", got, subject)
		}
		all := util.ExtractNames([]ctx509.Certificate{*c, *c})
		if len(all) != 2 || !slices.Equal(sorted(all[0]), w) || !slices.Equal(sorted(all[1]), w) {
			return fmt.Errorf("its extracted names are %q, expected %q", all, w)
		}
	}
	return nil
}
