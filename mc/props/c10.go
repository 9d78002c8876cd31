package props

import (
	"fmt"
	"strings"
	"unicode"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C10", Level: "exploration",
		Rule: "one case per literal, set, range list or function; each is run at every position of every source; non-trivial when it matches somewhere and not elsewhere",
		Bounds: "literals of up to 3 (thorough 4) units over {a,b,é,\\xc3}; case-insensitive literals of up to 2 characters over 16 letters with special case folding, and every code point of the Unicode case-folding orbits and their neighbours; sets of up to 3 members (prefixes of each other, empty, multi-byte, ill-formed, replacement character); all range lists with up to 2 ranges over 14 boundary characters, plus every code point against a list of 6 ranges; " +
			"sources of up to 4 units over an alphabet with 1..3-byte and ill-formed units, at every byte position including the end; literals and members of 1..48 bytes and around every power of two up to 2 KiB (thorough 128 KiB), the source cut off, shifted or altered at every place (long ones: near the ends and around powers of two); up to 1000 ranges and members in five orders; sets of up to 43 members with empty, ill-formed and prefix members first or last",
		Assumptions: []string{
			"case-insensitive literals are valid UTF-8; a case variant of another encoded length is unspecified and skipped",
		},
		Run: run10,
	})
}

// sameFold tells whether two characters are equal under simple case folding.
func sameFold(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

// foldPrefix finds the prefix of rest that is a case variant of lit; -1: none.
func foldPrefix(rest, lit string) int {
	pos := 0
	for _, want := range lit {
		r, n := decode(rest[pos:])
		if n == 0 || n == 1 && r == 0xfffd || !sameFold(r, want) {
			return -1
		}
		pos += n
	}
	return pos
}

func run10(r *kit.Run) {
	lit := 3
	if r.Thorough {
		lit = 4
	}
	sources := words(4, "a", "b", "é", "\xc3", "\xa9")
	// each runs one terminal at every position of every source
	each := func(w *kit.W, name string, fn p.ParserFn, srcs []string, want func(rest string) (int, string)) {
		var src string
		var pos int
		w.Desc(func() string { return fmt.Sprintf("%s on %q at %d", name, src, pos) })
		yes, no := false, false
		for _, src = range srcs {
			w.States(len(src) + 1)
			for pos = 0; pos <= len(src); pos++ {
				n, text := want(src[pos:])
				if n == -2 {
					w.Skip()
					continue
				}
				if n < 0 {
					no = true
				} else {
					yes = true
				}
				if !oneTok(w, fn, src, pos, n, text) {
					return
				}
			}
		}
		if yes && no {
			w.Nontrivial()
		}
		w.SeeStr(fmt.Sprint(yes, no))
	}
	prefix := func(l string) func(string) (int, string) {
		return func(rest string) (int, string) {
			if len(rest) >= len(l) && rest[:len(l)] == l {
				return len(l), l
			}
			return -1, ""
		}
	}
	lits := words(lit, "a", "b", "é", "\xc3")
	r.Sub("literal", len(lits), func(w *kit.W, i int) {
		each(w, fmt.Sprintf("Seq(%q)", lits[i]), str.Seq(lits[i]), sources, prefix(lits[i]))
	})
	letters := []string{"a", "A", "k", "K", "\u212a", "s", "S", "ſ", "é", "É", "σ", "ς", "Σ", "ß", "1", "ǅ"}
	ilits := words(2, letters...)
	isrcs := append(words(2, letters...), words(3, "k", "K", "\u212a", "é", "É", "\xc3")...)
	insens := func(l string) func(string) (int, string) {
		return func(rest string) (int, string) {
			n := foldPrefix(rest, l)
			if n < 0 {
				return -1, ""
			}
			if n != len(l) {
				return -2, ""
			}
			return n, rest[:n]
		}
	}
	r.Sub("literal-any-case", len(ilits), func(w *kit.W, i int) {
		each(w, fmt.Sprintf("SeqI(%q)", ilits[i]), str.SeqI(ilits[i]), isrcs, insens(ilits[i]))
	})
	const block = 1024
	r.Sub("folding", 0x110000/block, func(w *kit.W, i int) {
		for c := rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			near := []rune{c, c ^ 0x20, c + 1, c - 1, c ^ 0x80, unicode.ToUpper(c), unicode.ToLower(c), unicode.ToTitle(c)}
			for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
				near = append(near, f)
			}
			var src []string
			for _, n := range near {
				if n >= 0 && n <= 0x10ffff && (n < 0xd800 || n > 0xdfff) {
					src = append(src, string(n), string(n)+"x")
				}
			}
			l := string(c)
			each(w, fmt.Sprintf("SeqI(%q)", l), str.SeqI(l), src, insens(l))
			if w.Failed() {
				return
			}
			each(w, fmt.Sprintf("Seq(%q)", l), str.Seq(l), src, prefix(l))
			if w.Failed() {
				return
			}
		}
	})
	members := []string{"a", "ab", "b", "", "é", "\xc3", "ba", "aab", "\ufffd", "\ufffda"}
	var sets [][]string
	var grow func(pre []string)
	grow = func(pre []string) {
		sets = append(sets, append([]string{}, pre...))
		if len(pre) == 3 {
			return
		}
		for _, m := range members {
			grow(append(pre, m))
		}
	}
	grow(nil)
	sources = append(sources[:len(sources):len(sources)], words(3, "a", "\xff", "\ufffd", "\xc3")...)
	r.Sub("set", len(sets), func(w *kit.W, i int) {
		cc := sets[i]
		each(w, fmt.Sprintf("CharClass%q", cc), str.CharClass(cc...), sources, func(rest string) (int, string) {
			for _, m := range cc {
				if strings.HasPrefix(rest, m) {
					return len(m), m
				}
			}
			return -1, ""
		})
		if w.Failed() {
			return
		}
		each(w, fmt.Sprintf("CharClassN%q", cc), str.CharClassN(cc...), sources, func(rest string) (int, string) {
			for _, m := range cc {
				if strings.HasPrefix(rest, m) {
					return -1, ""
				}
			}
			c, n := decode(rest)
			if n == 0 {
				return -1, ""
			}
			return n, charOf(rest, c, n)
		})
	})
	// many members, late ones deciding
	lates := [][]string{{"a", "ab", "é"}, {"ab", "a"}, {"", "a"}, {"b", "", "ab"}, {"\ufffd", "\xc3"}, {"\xc3\xa9a", "\xff", ""}}
	r.Sub("long-set", 40*len(lates)*2, func(w *kit.W, i int) {
		var cc []string
		late, first := lates[i/2%len(lates)], i%2 == 1
		if i = i / 2 / len(lates); first {
			cc = append(cc, late...)
		}
		for k := 0; k < i; k++ {
			cc = append(cc, fmt.Sprintf("%c%d", 'p'+k%5, k))
		}
		if !first {
			cc = append(cc, late...)
		}
		each(w, fmt.Sprintf("CharClassN%q", cc), str.CharClassN(cc...), sources, func(rest string) (int, string) {
			for _, m := range cc {
				if strings.HasPrefix(rest, m) {
					return -1, ""
				}
			}
			c, n := decode(rest)
			if n == 0 {
				return -1, ""
			}
			return n, charOf(rest, c, n)
		})
		if w.Failed() {
			return
		}
		each(w, fmt.Sprintf("CharClass%q", cc), str.CharClass(cc...), sources, func(rest string) (int, string) {
			for _, m := range cc {
				if strings.HasPrefix(rest, m) {
					return len(m), m
				}
			}
			return -1, ""
		})
	})
	// literals and members of many lengths, the source cut off or altered at many places
	unit := []string{"a", "é", "b", "漢", "1", "Z", "😀", "\t"}
	long := func(n int) string {
		var b strings.Builder
		for k := 0; b.Len() < n; k++ {
			u := unit[(k*k/3+k)%len(unit)]
			if b.Len()+len(u) > n {
				u = "x"
			}
			b.WriteString(u)
		}
		return b.String()
	}
	var sizes []int
	for n := 1; n <= 48; n++ {
		sizes = append(sizes, n)
	}
	top := 2048
	if r.Thorough {
		top = 1 << 17
	}
	for n := 64; n <= top; n *= 2 {
		sizes = append(sizes, n-1, n, n+1)
	}
	swapCase := func(s string) string {
		return strings.Map(func(c rune) rune {
			switch {
			case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
				return c ^ 0x20
			case c == 'é':
				return 'É'
			}
			return c
		}, s)
	}
	r.Sub("sizes", len(sizes), func(w *kit.W, i int) {
		n := sizes[i]
		l := long(n)
		// the places where the source stops or differs
		var at []int
		for k := 0; k <= n; k++ {
			d := k & (k - 1)
			if n <= 48 || k < 4 || k > n-4 || d == 0 || (k+1)&k == 0 || (k-1)&(k-2) == 0 {
				at = append(at, k)
			}
		}
		srcs := []string{l, l + "a", l + l, "é" + l, swapCase(l), swapCase(l) + "z", "é" + swapCase(l), ""}
		for _, k := range at {
			srcs = append(srcs, l[:k], l[:k]+"q", l[:k]+"\xff"+l[k:], l[k:])
			if k < n {
				srcs = append(srcs, l[:k]+string([]byte{l[k] ^ 1})+l[k+1:], l[:k]+l[k+1:])
			}
		}
		fns := []struct {
			name string
			fn   p.ParserFn
			want func(rest string) (int, string)
		}{
			{"Seq", str.Seq(l), prefix(l)},
			{"SeqI", str.SeqI(l), insens(l)},
			{"CharClass", str.CharClass("q"+l, l+"a", l), func(rest string) (int, string) {
				for _, m := range []string{"q" + l, l + "a", l} {
					if strings.HasPrefix(rest, m) {
						return len(m), m
					}
				}
				return -1, ""
			}},
			{"CharClassN", str.CharClassN("q"+l, l), func(rest string) (int, string) {
				if strings.HasPrefix(rest, l) || strings.HasPrefix(rest, "q"+l) {
					return -1, ""
				}
				c, n := decode(rest)
				if n == 0 {
					return -1, ""
				}
				return n, charOf(rest, c, n)
			}},
		}
		for _, f := range fns {
			var src string
			var pos int
			w.Desc(func() string {
				return fmt.Sprintf("%s of a literal of %d bytes on %d bytes %.60q at %d", f.name, n, len(src), src, pos)
			})
			for _, src = range srcs {
				w.States(1)
				for _, pos = range []int{0, 1, 2, len(src) - n, len(src) - n + 1, len(src) - 1, len(src)} {
					if pos < 0 || pos > len(src) {
						continue
					}
					m, text := f.want(src[pos:])
					if m == -2 {
						w.Skip()
						continue
					}
					if !oneTok(w, f.fn, src, pos, m, text) {
						return
					}
				}
			}
		}
		w.Nontrivial()
	})
	// many ranges, and members of every position deciding
	counts := []int{1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}
	orders := []func(k, n int) int{
		func(k, n int) int { return k * 37 % n }, func(k, n int) int { return k }, func(k, n int) int { return n - 1 - k },
		func(k, n int) int { return k ^ 1 }, func(k, n int) int { return (k + n/2) % n },
	}
	r.Sub("many-members", len(counts)*len(orders), func(w *kit.W, i int) {
		n := counts[i/len(orders)]
		order := orders[i%len(orders)]
		var l []p.RuneRange
		var cc []string
		for k := 0; k < n; k++ {
			// neither sorted nor disjoint
			c := rune(0x3000 + order(k, n)*5)
			l = append(l, p.RuneRange{Start: c, End: c + rune(k%4)})
			cc = append(cc, string(c)+string(c+1))
		}
		in := func(c rune) bool {
			for _, x := range l {
				if x.Start <= c && c <= x.End {
					return true
				}
			}
			return false
		}
		var src []string
		for c := rune(0x2ffe); c < rune(0x3000+n*5+3); c++ {
			src = append(src, string(c), string(c)+string(c+1))
		}
		yes := func(rest string) (int, string) {
			for _, m := range cc {
				if strings.HasPrefix(rest, m) {
					return len(m), m
				}
			}
			return -1, ""
		}
		ch := func(f func(c rune, rest string) bool) func(rest string) (int, string) {
			return func(rest string) (int, string) {
				c, n := decode(rest)
				if n == 0 || !f(c, rest) {
					return -1, ""
				}
				return n, charOf(rest, c, n)
			}
		}
		fns := []p.ParserFn{str.CharRange(l...), str.CharRangeN(l...), str.CharClass(cc...), str.CharClassN(cc...)}
		wants := []func(rest string) (int, string){ch(func(c rune, _ string) bool { return in(c) }), ch(func(c rune, _ string) bool { return !in(c) }), yes,
			ch(func(_ rune, rest string) bool { m, _ := yes(rest); return m < 0 })}
		for k, fn := range fns {
			var s string
			w.Desc(func() string { return fmt.Sprintf("terminal %d with %d members on %q", k, n, s) })
			for _, s = range src {
				m, text := wants[k](s)
				w.States(1)
				if !oneTok(w, fn, s, 0, m, text) || !oneTok(w, fn, "é"+s, 2, m, text) || !oneTok(w, fn, s, len(s), -1, "") {
					return
				}
			}
		}
		w.Nontrivial()
	})
	pts := []rune{0, 'a', 'b', 'c', 'z', 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10000, 0x10ffff, -1}
	type rr = p.RuneRange
	var ranges [][]rr
	ranges = append(ranges, nil)
	for _, a := range pts {
		for _, b := range pts {
			ranges = append(ranges, []rr{{Start: a, End: b}})
		}
	}
	if r.Thorough {
		for _, a := range ranges[1 : 1+len(pts)*len(pts)] {
			for _, b := range ranges[1 : 1+len(pts)*len(pts)] {
				ranges = append(ranges, []rr{a[0], b[0]})
			}
		}
	} else {
		few := []rr{{Start: 'a', End: 'b'}, {Start: 'z', End: 'a'}, {Start: 'c', End: 'c'}, {Start: 0x80, End: 0x800}, {Start: 0xfffd, End: 0x10ffff}, {Start: 0, End: 0x7f}}
		for _, a := range few {
			for _, b := range few {
				ranges = append(ranges, []rr{a, b})
			}
		}
	}
	var rsrc []string
	for _, c := range pts {
		for d := rune(-1); d <= 1; d++ {
			if x := c + d; x >= 0 && x <= 0x10ffff {
				rsrc = append(rsrc, string(x), string(x)+"b", "é"+string(x))
			}
		}
	}
	rsrc = append(rsrc, "", "\xff", "\xc3a", "\xed\xa0\x80", "\xf4\x90\x80\x80")
	inRange := func(l []rr, c rune) bool {
		for _, x := range l {
			if x.Start <= c && c <= x.End {
				return true
			}
		}
		return false
	}
	one := func(f func(c rune) bool) func(rest string) (int, string) {
		return func(rest string) (int, string) {
			c, n := decode(rest)
			if n == 0 || !f(c) {
				return -1, ""
			}
			return n, charOf(rest, c, n)
		}
	}
	both := func(w *kit.W, l []rr, src []string) {
		each(w, fmt.Sprintf("CharRange%v", l), str.CharRange(l...), src, one(func(c rune) bool { return inRange(l, c) }))
		if !w.Failed() {
			each(w, fmt.Sprintf("CharRangeN%v", l), str.CharRangeN(l...), src, one(func(c rune) bool { return !inRange(l, c) }))
		}
	}
	r.Sub("range", len(ranges), func(w *kit.W, i int) { both(w, ranges[i], rsrc) })
	six := []rr{{Start: '0', End: '9'}, {Start: 'A', End: 'F'}, {Start: 'q', End: 'q'}, {Start: 0xc0, End: 0x24f}, {Start: 0x3041, End: 0xfffd}, {Start: 0x1f300, End: 0x1f64f}}
	sixP, sixN := str.CharRange(six...), str.CharRangeN(six...)
	r.Sub("range-all-characters", 0x110000/block, func(w *kit.W, i int) {
		var c rune
		w.Desc(func() string { return fmt.Sprintf("ranges %v on U+%04X", six, c) })
		for c = rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			s := string(c)
			in, out := -1, len(s)
			if inRange(six, c) {
				in, out = len(s), -1
			}
			if !oneTok(w, sixP, s+"0", 0, in, s) || !oneTok(w, sixN, s+"0", 0, out, s) {
				return
			}
			// a function class sees exactly the character
			var saw []rune
			fn := str.CharClassFn(func(x rune) bool { saw = append(saw, x); return x&1 == 0 })
			m := -1
			if c&1 == 0 {
				m = len(s)
			}
			if !oneTok(w, fn, "é"+s, 2, m, s) {
				return
			}
			for _, x := range saw {
				if x != c {
					w.Fail("the function was called with %q", saw)
					return
				}
			}
			if len(saw) == 0 {
				w.Fail("the function was not called")
				return
			}
		}
		w.Nontrivial()
	})
	fns := []func(c rune) bool{func(rune) bool { return true }, func(rune) bool { return false }, func(c rune) bool { return c == 'a' || c == 'é' }, func(c rune) bool { return c == 0xfffd }}
	r.Sub("function", len(fns), func(w *kit.W, i int) {
		calls := 0
		fn := str.CharClassFn(func(c rune) bool { calls++; return fns[i](c) })
		each(w, fmt.Sprintf("CharClassFn %d", i), fn, sources, one(fns[i]))
		if w.Failed() {
			return
		}
		calls = 0
		if _, _ = fn(p.ParserContext{Str: "ab", SourcePosition: p.SourcePosition{Position: 2}}); calls != 0 {
			w.Fail("the function was asked about a character beyond the end")
		}
	})
}
