// Command c31: times of day, durations and periodic functions.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifmc/core"
	"github.com/netsec-ethz/fpki/verifmc/vrt"
)

const unit = time.Second

// period checks the runs of a periodic function: when is the offset of the first run, the durations
// of the runs repeat the last one, cancelAt is the moment of cancellation (by is who cancels).
func period(when, repeat int, durations []int, cancelAt int, by string, q, d int) *vrt.Scenario {
	type run struct{ start, end time.Duration }
	return &vrt.Scenario{
		Name:  fmt.Sprintf("first at %d every %d durations %v end by %s at %d", when, repeat, durations, by, cancelAt),
		Quick: q, Deep: d, Shards: 1,
		Body: func() error {
			ctx, cancel := context.WithCancel(context.Background())
			stop := time.Duration(cancelAt) * unit
			base := vrt.VirtualNow()
			now := func() time.Duration { return vrt.VirtualNow() - base }
			var runs []run
			inside := 0
			var err error
			fail := func(f string, a ...any) {
				if err == nil {
					err = fmt.Errorf(f, a...)
				}
			}
			cancelled := false
			switch by {
			case "cancel":
				go func() {
					time.Sleep(stop)
					cancelled = true
					cancel()
				}()
			case "deadline":
				ctx, cancel = context.WithTimeout(ctx, stop)
			case "before":
				stop = 0
				cancelled = true
				cancel()
			}
			util.RunWhen(ctx, time.Now().Add(time.Duration(when)*unit), time.Duration(repeat)*unit, func(c context.Context) {
				k := len(runs)
				if inside++; inside != 1 {
					fail("run %d starts while another one is not finished", k)
				}
				if c.Value("x") != nil || c.Done() != ctx.Done() {
					fail("run %d got another context", k)
				}
				if by == "run" && k == cancelAt {
					stop = now()
					cancelled = true
					cancel()
				}
				runs = append(runs, run{start: now()})
				time.Sleep(time.Duration(durations[min(k, len(durations)-1)]) * unit)
				runs[k].end = now()
				inside--
			})
			time.Sleep(40 * unit)
			if by == "never" {
				stop = now()
				cancel()
				time.Sleep(20 * unit)
			}
			cancel()
			_ = cancelled
			if err != nil {
				return err
			}
			first := time.Duration(max(0, when)) * unit
			p := time.Duration(repeat) * unit
			if len(runs) == 0 && first < stop {
				return fmt.Errorf("was never executed")
			}
			for k, r := range runs {
				if r.start > stop || by == "before" {
					return fmt.Errorf("run %d starts at %v, cancelled at %v", k, r.start, stop)
				}
				if by == "run" && k > cancelAt {
					return fmt.Errorf("run %d starts after run %d cancelled it", k, cancelAt)
				}
				if k == 0 {
					if r.start != first {
						return fmt.Errorf("the first run is at %v, expected %v", r.start, first)
					}
					continue
				}
				// A tick that passed during the previous run starts the next one at once, otherwise
				// the next one starts with the next tick.
				e := runs[k-1].end
				next := e - (e-first)%p + p // first tick after the end
				tie := (e-first)%p == 0
				passed := e-first-(e-first)%p > runs[k-1].start-first // some tick in (start, end]
				switch {
				case r.start == next && (!passed || tie && e-p <= runs[k-1].start):
				case r.start == e && passed:
				case r.start == e && runs[k-1].start != first && (runs[k-1].start-first)%p == 0:
					// The previous run started at a tick, which may not be consumed yet.
				default:
					return fmt.Errorf("run %d ends at %v, run %d starts at %v, expected %v", k-1, e, k, r.start, next)
				}
				if r.start < first+time.Duration(k)*p {
					return fmt.Errorf("run %d starts at %v, before its time", k, r.start)
				}
			}
			if n := len(runs); n > 0 {
				if l := runs[n-1]; by != "run" && max(l.end, l.start+p) < stop {
					next := max(l.end, l.end-(l.end-first)%p+p)
					if next < stop {
						return fmt.Errorf("run %d is missing (at %v, stopped at %v)", n, next, stop)
					}
				}
				if by == "run" && n <= cancelAt {
					return fmt.Errorf("only %d runs", n)
				}
			}
			return nil
		},
		Outcome: func(r *vrt.Result) string { return r.Status.String() },
	}
}

func main() {
	var l []*vrt.Scenario
	for _, when := range []int{-4, 0, 2, 5} {
		for _, repeat := range []int{2, 3} {
			for _, ds := range [][]int{{0}, {1}, {2}, {3}, {5}, {1, 7, 0}, {4, 1}, {0, 3, 1}} {
				l = append(l, period(when, repeat, ds, 0, "before", 1, 3), period(when, repeat, ds, 0, "never", 1, 2))
				for c := 0; c <= 14; c++ {
					l = append(l, period(when, repeat, ds, c, "cancel", 1, 3))
					if c%2 == 1 {
						l = append(l, period(when, repeat, ds, c, "deadline", 1, 3))
					}
				}
				for c := 0; c <= 3; c++ {
					l = append(l, period(when, repeat, ds, c, "run", 1, 3))
				}
			}
		}
	}
	vrt.Main("C31", "every run of a periodic function for all first times, periods, durations and moments of cancellation, every schedule with a bounded number of deviations; all times of day, clocks and zones; all duration and time texts of the enumeration", l, values)
}

func values(r *core.Run) {
	do := func(key string, fn func() error) {
		r.Case(key, nil, fn)
		r.Distinct.Add(1)
	}
	nextTime(r, do)
	dayTexts(r, do)
	durations(r, do)
}

func nextTime(r *core.Run, do func(string, func() error)) {
	save := vrt.Base
	defer func() { vrt.Base = save }()
	zones := []*time.Location{time.UTC}
	for _, m := range []int{-12 * 60, -11*60 - 30, -5 * 60, -1, 1, 60, 2 * 60, 5*60 + 30, 9 * 60, 12*60 + 45, 14 * 60} {
		zones = append(zones, time.FixedZone(fmt.Sprint("zone", m), m*60))
	}
	for _, n := range []string{"Europe/Zurich", "America/New_York", "Australia/Lord_Howe"} {
		if z, err := time.LoadLocation(n); err == nil {
			zones = append(zones, z)
		}
	}
	type tod struct{ h, m, s, n uint }
	var tods []tod
	for h := uint(0); h < 24; h++ {
		for _, m := range []uint{0, 30, 59} {
			for _, s := range []uint{0, 59} {
				for _, n := range []uint{0, 999_999_999} {
					tods = append(tods, tod{h, m, s, n})
				}
			}
		}
	}
	tods = append(tods, tod{0, 0, 0, 1}, tod{12, 34, 56, 789_000_000}, tod{23, 59, 59, 999_999_998})
	days := []string{"2026-01-01", "2026-06-15", "2026-12-31", "2024-02-28", "2024-02-29", "2026-02-28", "2026-03-29", "2026-10-25", "2026-11-01", "1970-01-01", "2026-03-08"}
	if r.Thorough() {
		days = append(days, "2100-02-28", "2000-02-29", "2026-04-30", "2026-04-05", "2262-01-01", "2024-12-31")
	}
	for _, z := range zones {
		for _, ds := range days {
			day, _ := time.Parse(time.DateOnly, ds)
			key := fmt.Sprintf("next time of day, zone %v, day %s", z, ds)
			n := 0
			do(key, func() error {
				for _, clock := range tods {
					now := day.Add(time.Duration(clock.h)*time.Hour + time.Duration(clock.m)*time.Minute + time.Duration(clock.s)*time.Second + time.Duration(clock.n))
					for _, shift := range []time.Duration{-1, 0, 1} {
						vrt.Base = now.Add(shift).In(z)
						for _, t := range tods {
							of := time.Duration(t.h)*time.Hour + time.Duration(t.m)*time.Minute + time.Duration(t.s)*time.Second + time.Duration(t.n)
							// The first instant not before now that is a whole number of days and of after midnight UTC.
							since := time.Duration((vrt.Base.Unix()%86400+86400)%86400)*time.Second + time.Duration(vrt.Base.Nanosecond())
							want := vrt.Base.Add(of - since)
							if of < since {
								want = want.Add(24 * time.Hour)
							}
							got := util.NewTimeOfDay(t.h, t.m, t.s, t.n).NextTimeOfDay()
							if !got.Equal(want) {
								return fmt.Errorf("now is %v, next %02d:%02d:%02d.%09d is %v, expected %v", vrt.Base, t.h, t.m, t.s, t.n, got, want)
							}
							n++
						}
					}
				}
				return nil
			})
			r.AddExtra("next_times", int64(n))
		}
	}
}

var dayText = regexp.MustCompile(`^([01]?[0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]([.,][0-9]{1,9})?$`)

func dayTexts(r *core.Run, do func(string, func() error)) {
	nanos := []uint{0, 1, 10, 999, 1000, 1001, 999_000, 1_000_000, 1_001_000, 100_000_000, 123_456_789, 999_999_999}
	clamp := func(v, m uint) uint { return min(v, m) }
	for h := uint(0); h < 26; h++ {
		do(fmt.Sprintf("times of day with hour %d", h), func() error {
			for m := uint(0); m < 62; m++ {
				for s := uint(0); s < 62; s++ {
					if r.Pick(1, 0) == 1 && m%7 != 0 && s%11 != 0 {
						continue
					}
					for _, n := range append(nanos, 1_000_000_000, math.MaxUint) {
						t := util.NewTimeOfDay(h, m, s, n)
						ch, cm, cs, cn := clamp(h, 23), clamp(m, 59), clamp(s, 59), clamp(n, 999_999_999)
						if t.Hour() != int(ch) || t.Minute() != int(cm) || t.Second() != int(cs) || t.Nanosecond() != int(cn) {
							return fmt.Errorf("%d:%d:%d.%d became %v", h, m, s, n, t.Time)
						}
						want := fmt.Sprintf("%02d:%02d:%02d", ch, cm, cs)
						text := t.String()
						frac := strings.TrimPrefix(text, want)
						if f := strings.TrimRight(strings.TrimPrefix(frac, "."), "0"); !strings.HasPrefix(text, want) || f != strings.TrimRight(fmt.Sprintf("%09d", cn), "0") {
							return fmt.Errorf("%s.%09d is written %q", want, cn, text)
						}
						var a, b, c util.TimeOfDayWrap
						if err := a.Set(text); err != nil || a != t {
							return fmt.Errorf("%q is read as %v, %v", text, a.Time, err)
						}
						txt, err := t.MarshalText()
						if err == nil {
							err = b.UnmarshalText(txt)
						}
						if err != nil || b != t {
							return fmt.Errorf("text %q is read as %v, %v", txt, b.Time, err)
						}
						js, err := json.Marshal(t)
						if err == nil {
							err = json.Unmarshal(js, &c)
						}
						if err != nil || c != t {
							return fmt.Errorf("JSON %s is read as %v, %v", js, c.Time, err)
						}
					}
				}
			}
			return nil
		})
	}
	parts := []string{"", "0", "00", "7", "07", "23", "24", "59", "60", "99", "-1", "+1", "001", "a", " 1"}
	fracs := []string{"", ".", ".0", ".5", ".123456789", ",25", ".x", "Z", " ", ".1 "}
	for _, h := range parts {
		for _, m := range parts {
			for _, s := range append(parts, "-") {
				for _, f := range fracs {
					text := h + ":" + m + ":" + s + f
					if s == "-" {
						text = h + ":" + m + f
					}
					do(fmt.Sprintf("time of day %q", text), func() error {
						t, err := util.ParseTimeOfDay(text)
						if (err == nil) != dayText.MatchString(text) {
							return fmt.Errorf("read as %v, %v", t, err)
						}
						var w util.TimeOfDayWrap
						js, _ := json.Marshal(text)
						if (json.Unmarshal(js, &w) == nil) != (err == nil) || err == nil && !w.Equal(t) {
							return fmt.Errorf("read from JSON as %v, from text as %v", w, t)
						}
						if err != nil {
							return nil
						}
						hh, _ := strconv.Atoi(h)
						mm, _ := strconv.Atoi(m)
						ss, _ := strconv.Atoi(s)
						ns := 0
						if f != "" {
							ns, _ = strconv.Atoi((f[1:] + "000000000")[:9])
						}
						if t.Hour() != hh || t.Minute() != mm || t.Second() != ss || t.Nanosecond() != ns {
							return fmt.Errorf("read as %v", t)
						}
						return nil
					})
				}
			}
		}
	}
	for _, js := range []string{"", "null0", "5", "{}", "[\"01:02:03\"]", "\"01:02:03", "true"} {
		do(fmt.Sprintf("JSON time of day %q", js), func() error {
			var w util.TimeOfDayWrap
			if err := json.Unmarshal([]byte(js), &w); err == nil {
				return fmt.Errorf("read as %v", w)
			}
			return nil
		})
	}
}

var units = []struct {
	name string
	ns   int64
}{{"y", 365 * 24 * 3600e9}, {"w", 7 * 24 * 3600e9}, {"d", 24 * 3600e9}, {"h", 3600e9}, {"m", 60e9}, {"s", 1e9}, {"ms", 1e6}, {"us", 1e3}, {"µs", 1e3}, {"ns", 1}}

var durationText = regexp.MustCompile(`^(-?[0-9]+)([a-zµ]+)$`)

// duration returns the duration the text stands for, if any.
func duration(text string) (int64, bool) {
	m := durationText.FindStringSubmatch(text)
	if m == nil {
		return 0, false
	}
	for _, u := range units {
		if u.name == m[2] {
			n, _ := new(big.Int).SetString(m[1], 10)
			n.Mul(n, big.NewInt(u.ns))
			return n.Int64(), n.IsInt64()
		}
	}
	return 0, false
}

func durations(r *core.Run, do func(string, func() error)) {
	parse := func(text string) error {
		want, ok := duration(text)
		got, err := util.ParseDuration(text)
		if (err == nil) != ok || ok && int64(got) != want {
			return fmt.Errorf("read as %d, %v; expected %d, %v", got, err, want, ok)
		}
		var w util.DurationWrap
		if err2 := w.UnmarshalText([]byte(text)); (err2 == nil) != (err == nil) || err == nil && w.Duration != got {
			return fmt.Errorf("read from text as %v, %v", w, err2)
		}
		return nil
	}
	// All texts of up to n tokens.
	tokens := []string{"0", "1", "9", "12", "-", "y", "w", "d", "h", "m", "s", "u", "n", "µ", ".", " ", "+", "e"}
	level := []string{""}
	for range r.Pick(4, 5) {
		var next []string
		for _, x := range level {
			for _, t := range tokens {
				next = append(next, x+t)
			}
		}
		r.Parallel("duration texts", (len(next)+999)/1000, func(c int) {
			for _, x := range next[c*1000 : min(len(next), c*1000+1000)] {
				do("duration "+strconv.Quote(x), func() error { return parse(x) })
			}
		})
		level = next
	}
	do("duration of an empty text", func() error { return parse("") })
	var values []int64
	for _, u := range units {
		lim := math.MaxInt64 / u.ns
		for _, n := range []int64{0, 1, 2, 6, 7, 23, 24, 59, 60, 61, 364, 365, 366, 999, 1000, 1001, lim - 1, lim, lim + 1, math.MaxInt64} {
			for _, sign := range []string{"", "-"} {
				for _, zero := range []string{"", "0", "000"} {
					x := fmt.Sprint(sign, zero, uint64(n), u.name)
					do("duration "+strconv.Quote(x), func() error { return parse(x) })
				}
			}
			if n <= lim {
				values = append(values, n*u.ns, n*u.ns-1, -n*u.ns, -(n * u.ns)+1)
				if n < lim {
					values = append(values, n*u.ns+1)
				}
			}
		}
		for _, x := range []string{"9223372036854775808", "18446744073709551616", "18446744073709551617", "99999999999999999999", "-9223372036854775808", "-9223372036854775809"} {
			do("duration "+strconv.Quote(x+u.name), func() error { return parse(x + u.name) })
		}
	}
	values = append(values, math.MinInt64, math.MinInt64+1, math.MaxInt64)
	for _, a := range units {
		for _, b := range units {
			for k := int64(1); k < 4; k++ {
				values = append(values, a.ns+k*b.ns, a.ns-k*b.ns, 3*a.ns+k*b.ns)
			}
		}
	}
	for _, v := range values {
		do(fmt.Sprintf("format %d ns", v), func() error {
			text := util.FmtDuration(time.Duration(v))
			if w, ok := duration(text); !ok || w != v {
				return fmt.Errorf("written as %q", text)
			}
			if got, err := util.ParseDuration(text); err != nil || int64(got) != v {
				return fmt.Errorf("written as %q, read as %d, %v", text, got, err)
			}
			w := util.DurationWrap{Duration: time.Duration(v)}
			js, err := json.Marshal(w)
			var back util.DurationWrap
			if err == nil {
				err = json.Unmarshal(js, &back)
			}
			if err != nil || back != w || w.String() != text {
				return fmt.Errorf("written as %s, read as %v, %v", js, back, err)
			}
			return nil
		})
	}
}
