package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"

	"verif/mc/kit"
)

type ident19 struct {
	name        string
	fn          p.ParserFn
	first, rest func(r rune) bool
}

func idents19() []ident19 {
	return []ident19{
		{"AsciiIdentifierStr", extra.AsciiIdentifierStr(), func(r rune) bool { return asciiWord(r) && !(r >= '0' && r <= '9') }, asciiWord},
		{"UnicodeIdentifierStr", extra.UnicodeIdentifierStr(), func(r rune) bool { return idStart(r) || r == '_' || r == '$' }, unicodeWord},
	}
}

// length is the longest identifier at the start of s, or -1.
func (d ident19) length(s string) int {
	r, n := decode(s)
	if n == 0 || !d.first(r) {
		return -1
	}
	i := n
	for {
		r, n = decode(s[i:])
		if n == 0 || !d.rest(r) {
			return i
		}
		i += n
	}
}

func (d ident19) check(w *kit.W, src string, pos int) {
	out, err := d.fn(p.ParserContext{Str: src, SourcePosition: p.SourcePosition{Position: pos}})
	w.Eval()
	n := d.length(src[pos:])
	if n < 0 {
		if err != nil || out.MatchStatus != p.MatchStatus_Unmatched {
			w.Fail("%s on %q at %d: %v %v, want unmatched", d.name, src, pos, out.MatchStatus, err)
		}
		return
	}
	w.Nontrivial()
	if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != pos+n || len(out.AstStack) != 1 || out.AstStack[0].Type != p.AstType_String || out.AstStack[0].Value != src[pos:pos+n] {
		w.Fail("%s on %q at %d: %v %v next %d %s, want %q", d.name, src, pos, out.MatchStatus, err, out.Position, dump(out.AstStack), src[pos:pos+n])
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C19", Level: "exploration",
		Rule:        "one case per block of code points or per text; non-trivial when an identifier is found",
		Bounds:      "both identifier parsers with every code point as first character, after a letter, after a digit-like continuation, and before further letters; every text of up to 5 (thorough 6) characters over 18 characters of 1..4 bytes and ill-formed bytes, at every position; identifiers of up to 3000 characters",
		Assumptions: []string{"first: ID_Start, _ and $; continuation: ID_Continue, $, U+200C, U+200D; pattern syntax and pattern white space excluded", "the Unicode tables of the Go toolchain are right"},
		Run:         run19,
	})
}

func run19(r *kit.Run) {
	ids := idents19()
	const block = 256
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		var c rune
		w.Desc(func() string { return fmt.Sprintf("U+%04X", c) })
		for c = rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			s := string(c)
			for _, d := range ids {
				d.check(w, s, 0)
				d.check(w, s+"a1-", 0)
				d.check(w, "a"+s+"b", 0)
				d.check(w, "-é_"+s+s, 1)
				if w.Failed() {
					return
				}
			}
		}
		w.States(block)
	})
	n := 5
	if r.Thorough {
		n = 6
	}
	texts := kit.NewStrings(n, "a", "Z", "0", "_", "$", "-", " ", "é", "漢", "𝒜", "😀", "\u200c", "\u200d", "\u0301", "٣", "‿", "\xff", "℘", "·")
	r.Sub("texts", texts.Len(), func(w *kit.W, i int) {
		s := texts.At(i)
		w.Descf("%q", s)
		w.States(1)
		for _, d := range ids {
			for pos := 0; pos <= len(s); pos++ {
				if d.check(w, s, pos); w.Failed() {
					return
				}
			}
		}
	})
	r.Sub("long", 120, func(w *kit.W, i int) {
		n := i
		if i > 60 {
			n = (i - 58) * 50
		}
		for _, u := range []string{"a", "é", "𝒜9", "_$"} {
			s := strings.Repeat(u, n)
			w.Descf("%d times %q", n, u)
			w.States(1)
			for _, d := range ids {
				d.check(w, s, 0)
				d.check(w, s+"-"+s, 0)
			}
		}
	})
}
