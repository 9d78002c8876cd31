package props

import (
	"fmt"
	"strings"
	"time"
	_ "time/tzdata"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"

	"verif/mc/kit"
)

// ref20 is what a literal denotes.
type ref20 struct {
	n      int    // consumed bytes; -1: unmatched
	text   string // normalised
	ok     bool   // it denotes an instant
	unspec bool   // offsets of 24 hours
	sec    int64
	nano   int
}

type cur20 struct {
	s  string
	i  int
	ok bool
}

func (c *cur20) in(lo, hi byte) byte {
	if c.ok && c.i < len(c.s) && c.s[c.i] >= lo && c.s[c.i] <= hi {
		c.i++
		return c.s[c.i-1]
	}
	c.ok = false
	return '0'
}

func (c *cur20) two(hi byte) int { a := c.in('0', hi); return int(a-'0')*10 + int(c.in('0', '9')-'0') }

// date reads the date shape.
func (c *cur20) date() (neg bool, year string, mon, day int) {
	if c.i < len(c.s) && c.s[c.i] == '-' {
		neg = true
		c.i++
	}
	at := c.i
	for c.i < len(c.s) && c.s[c.i] >= '0' && c.s[c.i] <= '9' {
		c.i++
	}
	year = c.s[at:c.i]
	if len(year) < 4 {
		c.ok = false
	}
	c.in('-', '-')
	mon = c.two('1')
	c.in('-', '-')
	day = c.two('3')
	return
}

// clock reads the time shape: seconds and fraction are optional.
func (c *cur20) clock() (h, m, s int, frac string) {
	h = c.two('2')
	c.in(':', ':')
	m = c.two('5')
	frac = "000000000"
	if !c.ok {
		return
	}
	save := c.i
	c.in(':', ':')
	s = c.two('6')
	if !c.ok {
		c.i, c.ok, s = save, true, 0
		return
	}
	if c.i+1 < len(c.s) && c.s[c.i] == '.' && c.s[c.i+1] >= '0' && c.s[c.i+1] <= '9' {
		at := c.i + 1
		e := at
		for e < len(c.s) && e < at+9 && c.s[e] >= '0' && c.s[e] <= '9' {
			e++
		}
		frac = (c.s[at:e] + "000000000")[:9]
		c.i = e
	}
	return
}

// days20 counts the days from 1970-01-01 by plain counting of leap years.
func days20(y, m, d int) (int64, bool) {
	leap := y%4 == 0 && y%100 != 0 || y%400 == 0
	ml := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap {
		ml[1] = 29
	}
	if m < 1 || m > 12 || d < 1 || d > ml[m-1] {
		return 0, false
	}
	var n int64
	// years before y since year 0, which is a leap year
	if y > 0 {
		z := int64(y - 1)
		n = int64(y)*365 + z/4 - z/100 + z/400 + 1
	}
	for k := 0; k < m-1; k++ {
		n += int64(ml[k])
	}
	return n + int64(d-1) - 719528, true
}

func frac20(f string) (n int) {
	for i := 0; i < 9; i++ {
		n = n*10 + int(f[i]-'0')
	}
	return
}

func date20(s string) ref20 {
	c := &cur20{s: s, ok: true}
	neg, y, m, d := c.date()
	if !c.ok {
		return ref20{n: -1}
	}
	r := ref20{n: c.i, text: s[:c.i]}
	if !neg && len(y) == 4 {
		var days int64
		days, r.ok = days20(atoi20(y), m, d)
		r.sec = days * 86400
	}
	return r
}

func atoi20(s string) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return
}

func time20(s string) ref20 {
	c := &cur20{s: s, ok: true}
	h, m, sec, f := c.clock()
	if !c.ok {
		return ref20{n: -1}
	}
	return ref20{n: c.i, text: fmt.Sprintf("%02d:%02d:%02d.%s", h, m, sec, f), ok: h < 24 && sec < 60, sec: int64(h*3600 + m*60 + sec), nano: frac20(f)}
}

func dateTime20(s string) ref20 {
	c := &cur20{s: s, ok: true}
	neg, y, mon, d := c.date()
	date := s[:c.i]
	c.in('T', 'T')
	h, m, sec, f := c.clock()
	if !c.ok {
		return ref20{n: -1}
	}
	off, sign := 0, 1
	zone := "+00:00"
	oh := 0
	if c.i < len(s) && s[c.i] == 'Z' {
		c.i++
	} else {
		at := c.i
		if c.i < len(s) && s[c.i] == '-' {
			sign = -1
			c.i++
		} else {
			c.in('+', '+')
		}
		oh = c.two('9')
		c.in(':', ':')
		om := c.two('5')
		off = sign * (oh*60 + om) * 60
		if !c.ok {
			return ref20{n: -1}
		}
		zone = s[at:c.i]
	}
	r := ref20{n: c.i, text: fmt.Sprintf("%sT%02d:%02d:%02d.%s%s", date, h, m, sec, f, zone), nano: frac20(f)}
	if !neg && len(y) == 4 && h < 24 && sec < 60 && oh <= 24 {
		var days int64
		days, r.ok = days20(atoi20(y), mon, d)
		r.sec = days*86400 + int64(h*3600+m*60+sec) - int64(off)
		r.unspec = oh == 24
	}
	return r
}

type kind20 struct {
	name, class, conv string
	fn, full          p.ParserFn
	ref               func(s string) ref20
}

func kinds20() []kind20 {
	return []kind20{
		{"date", ":extra:DateStr", ":extra:Date", extra.DateStr(), p.Trans(extra.DateStr(), extra.ParseDate), date20},
		{"time", ":extra:TimeStr", ":extra:Time", extra.TimeStr(), p.Trans(extra.TimeStr(), extra.ParseTime), time20},
		{"date-time", ":extra:DateTimeStr", ":extra:DateTime", extra.DateTimeStr(), p.Trans(extra.DateTimeStr(), extra.ParseDateTime), dateTime20},
	}
}

func (k kind20) check(w *kit.W, src string, pos int) {
	w.Desc(func() string { return fmt.Sprintf("%s %q at %d", k.name, src, pos) })
	ctx := p.ParserContext{Str: src, SourcePosition: p.SourcePosition{Position: pos}}
	want := k.ref(src[pos:])
	out, err := k.fn(ctx)
	w.Eval()
	w.States(1)
	if want.n < 0 {
		if err != nil || out.MatchStatus != p.MatchStatus_Unmatched {
			w.Fail("%v %v %s, want unmatched", out.MatchStatus, err, dump(out.AstStack))
		}
		return
	}
	if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != pos+want.n || len(out.AstStack) != 1 || out.AstStack[0].Type != p.AstType_String || out.AstStack[0].Value != want.text {
		w.Fail("%v %v next %d %s, want %q, next %d", out.MatchStatus, err, out.Position, dump(out.AstStack), want.text, pos+want.n)
		return
	}
	out, err = k.full(ctx)
	w.Eval()
	if !want.ok {
		if err == nil {
			w.Fail("converted to %s, want an error", dump(out.AstStack))
		}
		return
	}
	if want.unspec && err != nil {
		w.Skip()
		return
	}
	w.Nontrivial()
	if err != nil || out.MatchStatus != p.MatchStatus_Matched || len(out.AstStack) != 1 {
		w.Fail("conversion: %v %v", out.MatchStatus, err)
		return
	}
	t, ok := out.AstStack[0].Value.(time.Time)
	if !ok || t.Unix() != want.sec || t.Nanosecond() != want.nano || t.Location() != time.UTC {
		w.Fail("converted to %v, want Unix %d.%09d in UTC", out.AstStack[0].Value, want.sec, want.nano)
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C20", Level: "exploration",
		Rule:        "one case per text or family of texts; non-trivial when it denotes an instant",
		Bounds:      "every date of 28 (thorough: all 10000) years with months 00..19 and days 00..39, signed and 5-digit years; every time of day 00:00:00..29:59:69; every offset -99:59..+99:59 on dates around a year end; fractions of 0..11 digits; every single (thorough: double) substitution, deletion and insertion of 19 symbols in 12 base texts; every code point below 20000 (thorough: all) at every place of a time and, below 4000 (thorough: all), of a date-time",
		Assumptions: []string{"years outside 0000..9999 cannot be converted (documented) and have to give an error", "an offset of 24 hours may be an error or exact"},
		Run:         run20,
	})
}

func zone20(name string) *time.Location {
	z, err := time.LoadLocation(name)
	if err != nil {
		return time.FixedZone(name, -7*3600)
	}
	return z
}

func run20(r *kit.Run) {
	ks := kinds20()
	// Nothing may depend on the zone of the machine.
	time.Local = time.FixedZone("elsewhere", 9*3600+30*60)
	zones := []*time.Location{time.UTC, time.FixedZone("west", -11*3600), time.FixedZone("odd", 5*3600+45*60+13), zone20("America/New_York"), zone20("Europe/London"), zone20("Pacific/Apia"), zone20("Asia/Kathmandu")}
	var years []int
	for _, y := range []int{0, 1, 3, 4, 99, 100, 101, 399, 400, 1000, 1582, 1600, 1700, 1752, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2020, 2100, 2400, 9996, 9999} {
		years = append(years, y)
	}
	if r.Thorough {
		years = nil
		for y := 0; y < 10000; y++ {
			years = append(years, y)
		}
	}
	r.Sub("dates", len(years)*20, func(w *kit.W, i int) {
		for d := 0; d < 40 && !w.Failed(); d++ {
			s := fmt.Sprintf("%04d-%02d-%02d", years[i/20], i%20, d)
			ks[0].check(w, s, 0)
			if !w.Failed() {
				ks[2].check(w, s+"T23:59:59.999999999Z", 0)
			}
		}
	})
	for _, z := range zones {
		home := time.Local
		time.Local = z
		r.Sub("zone-"+z.String(), 12*31, func(w *kit.W, i int) {
			for _, y := range []int{0, 1, 1883, 1900, 1945, 1970, 2007, 2011, 2021, 9999} {
				s := fmt.Sprintf("%04d-%02d-%02d", y, i%12+1, i/12+1)
				ks[0].check(w, s, 0)
				for _, t := range []string{"T00:00", "T02:30:00.5", "T23:59:59.999999999"} {
					for _, o := range []string{"Z", "+00:00", "-05:00", "+01:00"} {
						if !w.Failed() {
							ks[2].check(w, s+t+o, 0)
						}
					}
				}
			}
			for m := i % 60; m < 1440 && !w.Failed(); m += 60 {
				ks[1].check(w, fmt.Sprintf("%02d:%02d", m/60, m%60), 0)
			}
		})
		time.Local = home
	}
	r.Sub("odd-years", 60, func(w *kit.W, i int) {
		for _, y := range []string{"-0001", "-2020", "10000", "12020", "-10000", "00000", "02020", "999", "20", "", "-", "--2020", "+2020", "-0000", strings.Repeat("1", 30)} {
			for _, k := range ks {
				if k.check(w, y+[]string{"-01-02", "-12-31", "-02-29", "-1-02"}[i%4]+[]string{"", "T10:20Z", "T10:20:30.5+01:00"}[i/4%3], 0); w.Failed() {
					return
				}
			}
		}
	})
	r.Sub("times", 30*60, func(w *kit.W, i int) {
		base := fmt.Sprintf("%02d:%02d", i/60, i%60)
		ks[1].check(w, base, 0)
		for s := 0; s < 70 && !w.Failed(); s++ {
			t := fmt.Sprintf("%s:%02d", base, s)
			ks[1].check(w, t, 0)
			if !w.Failed() {
				ks[2].check(w, "2000-02-29T"+t+"Z", 0)
			}
		}
	})
	r.Sub("offsets", 200, func(w *kit.W, i int) {
		sign := "+"
		if i%2 == 1 {
			sign = "-"
		}
		for m := 0; m < 60; m++ {
			o := fmt.Sprintf("%s%02d:%02d", sign, i/2, m)
			for _, b := range []string{"2019-12-31T23:59:59.999999999", "2020-01-01T00:00", "0000-01-01T00:00", "9999-12-31T23:59:59", "2020-03-01T00:30:00.1"} {
				if ks[2].check(w, b+o, 0); w.Failed() {
					return
				}
			}
		}
	})
	r.Sub("fractions", 12*10, func(w *kit.W, i int) {
		f := strings.Repeat("0", i/10) + fmt.Sprint(i%10)
		for _, g := range []string{f, fmt.Sprint(i%10) + strings.Repeat("0", i/10), "1234567891234"[:i/10+1], strings.Repeat("9", i/10)} {
			for _, z := range []string{"Z", "+09:00", ""} {
				s := "10:20:30." + g
				ks[1].check(w, s+z, 0)
				if !w.Failed() {
					ks[2].check(w, "1969-12-31T"+s+z, 0)
				}
				if w.Failed() {
					return
				}
			}
		}
	})
	bases := []string{"2020-01-02", "-0044-03-15", "12020-01-02", "10:20", "10:20:30", "10:20:30.123456789", "2020-02-29T10:20Z", "2020-02-29T10:20:30Z", "2020-02-29T10:20:30.5Z", "2020-02-29T10:20+09:30", "2020-02-29T10:20:30.123456789-00:30", "2021-12-31T23:59:59.9+14:00"}
	syms := strings.Split("0123456789-:.TZ+ tz", "")
	var muts []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			muts = append(muts, s)
		}
	}
	edit := func(b string, f func(string)) {
		for i := 0; i <= len(b); i++ {
			f(b[:i])
			if i < len(b) {
				f(b[:i] + b[i+1:])
			}
			for _, s := range syms {
				f(b[:i] + s + b[i:])
				if i < len(b) {
					f(b[:i] + s + b[i+1:])
				}
			}
		}
	}
	for _, b := range bases {
		edit(b, add)
		if r.Thorough {
			edit(b, func(s string) { edit(s, add) })
		}
	}
	r.Sub("shapes", len(muts), func(w *kit.W, i int) {
		for _, k := range ks {
			k.check(w, muts[i], 0)
			if !w.Failed() {
				k.check(w, "1é"+muts[i]+"5", 3)
			}
			if w.Failed() {
				return
			}
		}
	})
	const block = 256
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		for c := rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			if c >= 0x20000 && c&0xff != 0x30 && !r.Thorough {
				continue
			}
			b := "10:20:59.5"
			for j := 0; j <= len(b); j++ {
				s := b[:j] + string(c)
				if j < len(b) {
					s += b[j+1:]
				}
				ks[1].check(w, s, 0)
			}
			if c < 0x4000 || c&0xfff8 == 0xff10 || r.Thorough {
				b = "2020-01-02T10:20+09:00"
				for j := 0; j <= len(b); j++ {
					s := b[:j] + string(c)
					if j < len(b) {
						s += b[j+1:]
					}
					ks[0].check(w, s, 0)
					ks[2].check(w, s, 0)
				}
			}
			if w.Failed() {
				return
			}
		}
	})
}
