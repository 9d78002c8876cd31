package props

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"

	"verif/mc/kit"
)

// scan18 is a tiny cursor for the reference recognisers.
type scan18 struct {
	s string
	i int
}

func (c *scan18) one(set string) bool {
	if c.i < len(c.s) && strings.IndexByte(set, c.s[c.i]) >= 0 {
		c.i++
		return true
	}
	return false
}

func (c *scan18) some(first, rest string) bool {
	if !c.one(first) {
		return false
	}
	for c.one(rest) {
	}
	return true
}

const digits18 = "0123456789"

func (c *scan18) intPart() bool {
	if c.one("0") {
		for c.one("_") {
		}
		return true
	}
	return c.some("123456789", digits18+"_")
}

// dotPart is a point with digits required after it.
func (c *scan18) dotPart() bool {
	at := c.i
	if c.one(".") {
		for c.one("_") {
		}
		if c.some(digits18, digits18+"_") {
			return true
		}
	}
	c.i = at
	return false
}

func (c *scan18) exp() bool {
	at := c.i
	if c.one("eE") {
		c.one("+-")
		if c.some(digits18, digits18+"_") {
			return true
		}
	}
	c.i = at
	return false
}

func lit18(f func(c *scan18) bool) func(s string) int {
	return func(s string) int {
		c := &scan18{s: s}
		if !f(c) {
			return -1
		}
		return c.i
	}
}

type literal18 struct {
	name, class string
	fn          p.ParserFn
	length      func(s string) int
	radix       int // 0: float
}

func literals18() []literal18 {
	return []literal18{
		{"BinaryNumberStr", ":extra:BinaryNumberStr", extra.BinaryNumberStr(), lit18(func(c *scan18) bool { return c.some("01", "01_") }), 2},
		{"OctalNumberStr", ":extra:OctalNumberStr", extra.OctalNumberStr(), lit18(func(c *scan18) bool { return c.some("01234567", "01234567_") }), 8},
		{"HexNumberStr", ":extra:HexNumberStr", extra.HexNumberStr(), lit18(func(c *scan18) bool { return c.some("0123456789abcdefABCDEF", "0123456789abcdefABCDEF_") }), 16},
		{"IntegerNumberStr", ":extra:IntegerNumberStr", extra.IntegerNumberStr(), lit18(func(c *scan18) bool { c.one("+-"); return c.intPart() }), 10},
		{"FloatNumberStr", ":extra:FloatNumberStr", extra.FloatNumberStr(), lit18(func(c *scan18) bool {
			c.one("+-")
			at := c.i
			if c.intPart() {
				if c.one(".") {
					for c.one(digits18 + "_") {
					}
					c.exp()
					return true
				}
				if c.exp() {
					return true
				}
				c.i = at
				return false
			}
			if c.dotPart() {
				c.exp()
				return true
			}
			return false
		}), 0},
		{"NumericStr", ":extra:NumericStr", extra.NumericStr(), lit18(func(c *scan18) bool {
			c.one("+-")
			if c.intPart() {
				if c.one(".") {
					for c.one(digits18 + "_") {
					}
				}
			} else if !c.dotPart() {
				return false
			}
			c.exp()
			return true
		}), 0},
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C18", Level: "exploration",
		Rule:        "one case per text; non-trivial when some parser consumes part of it",
		Bounds:      "all six number-literal parsers on every text of up to 7 (thorough 8) symbols over {0,1,9,.,_,e,-,+}, up to 5 (7) over {0,1,2,7,8,9,a,F,g,_,.,E}; every code point at 8 places of a literal; literals of up to 2000 digits; at offsets 0 and 3",
		Assumptions: []string{"documented grammar: sign? (0 _* | 1-9 (digit|_)*), point and exponent as in the library's parser comments; leading zeros end the literal after the first zero"},
		Run:         run18,
	})
}

func (l literal18) check(w *kit.W, src string, pos int, value bool) {
	out, err := l.fn(p.ParserContext{Str: src, SourcePosition: p.SourcePosition{Position: pos}})
	w.Eval()
	n := l.length(src[pos:])
	if n < 0 {
		if err != nil || out.MatchStatus != p.MatchStatus_Unmatched {
			w.Fail("%s on %q at %d: %v %v, want unmatched", l.name, src, pos, out.MatchStatus, err)
		}
		return
	}
	w.Nontrivial()
	text := strings.ReplaceAll(src[pos:pos+n], "_", "")
	if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != pos+n || len(out.AstStack) != 1 {
		w.Fail("%s on %q at %d: %v %v next %d entries %s, want next %d", l.name, src, pos, out.MatchStatus, err, out.Position, dump(out.AstStack), pos+n)
		return
	}
	a := out.AstStack[0]
	if a.Type != p.AstType_String || a.Value != text {
		w.Fail("%s on %q at %d yields %s, want %q", l.name, src, pos, dump(out.AstStack), text)
		return
	}
	if !value {
		return
	}
	if l.radix > 0 {
		v, ok := new(big.Int).SetString(text, l.radix)
		want := refInt(text, l.radix, false)
		if !ok || want == nil || v.Cmp(want) != 0 {
			w.Fail("%s on %q yields %q, which is not a number in radix %d", l.name, src, text, l.radix)
		}
		return
	}
	v, perr := strconv.ParseFloat(text, 64)
	f, ok, over := refFloat(text)
	if !ok || !over && (perr != nil || v != f) {
		w.Fail("%s on %q yields %q, which converts to %v %v", l.name, src, text, v, perr)
	}
}

func run18(r *kit.Run) {
	lits := literals18()
	all := func(w *kit.W, s string) {
		w.Descf("%q", s)
		w.States(1)
		for _, l := range lits {
			l.check(w, s, 0, true)
			if !w.Failed() {
				l.check(w, "1.é"[1:]+s, 3, false)
			}
			if w.Failed() {
				return
			}
		}
	}
	a, b := 7, 5
	if r.Thorough {
		a, b = 8, 7
	}
	dec := kit.NewStrings(a, "0", "1", "9", ".", "_", "e", "-", "+")
	r.Sub("decimal", dec.Len(), func(w *kit.W, i int) { all(w, dec.At(i)) })
	mix := kit.NewStrings(b, "0", "1", "2", "7", "8", "9", "a", "F", "g", "_", ".", "E")
	r.Sub("mixed", mix.Len(), func(w *kit.W, i int) { all(w, mix.At(i)) })
	const block = 256
	places := [][2]string{{"", "1"}, {"1", ""}, {"1.", "5"}, {"1.5e", "5"}, {"-", "1"}, {"0", "1"}, {"1_", "_1"}, {"1e5", ""}}
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		for c := rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			for _, q := range places {
				s := q[0] + string(c) + q[1]
				w.Descf("%q", s)
				for _, l := range lits {
					if l.check(w, s, 0, false); w.Failed() {
						return
					}
				}
			}
		}
		w.States(block)
	})
	r.Sub("long", 140, func(w *kit.W, i int) {
		n := i + 1
		if i >= 100 {
			n = 100 + (i-99)*50
		}
		d := strings.Repeat("1", n)
		z := strings.Repeat("0", n)
		for _, s := range []string{d, d + "." + d, "-" + d + "e" + d[:1], "." + z + "1", "1" + z, d + strings.Repeat("_", n) + d, "0" + strings.Repeat("_", n) + ".5", "1." + z + "_" + z + "e+1", "1_" + strings.Repeat("0_", n), "1e" + z + "1", "-1.5E-" + z + "2", "1.e+" + d, ".5e-" + d, "1e" + strings.Repeat("0_", n) + "1.5", d + "." + z + "e" + z + "." + d} {
			if all(w, s); w.Failed() {
				return
			}
		}
	})
	r.Note("parsers", fmt.Sprint(len(lits)))
}
