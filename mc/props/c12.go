package props

import (
	"fmt"
	"unicode"
	"unicode/utf8"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

// asciiWord is the documented ASCII set.
func asciiWord(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r == '_' || r == '$'
}

// idStart and idContinue are UAX 31, from the Unicode character database of the toolchain.
func idStart(r rune) bool {
	return (unicode.In(r, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nl) || unicode.Is(unicode.Properties["Other_ID_Start"], r)) &&
		!unicode.Is(unicode.Properties["Pattern_Syntax"], r) && !unicode.Is(unicode.Properties["Pattern_White_Space"], r)
}

func idContinue(r rune) bool {
	return idStart(r) || (unicode.In(r, unicode.Mn, unicode.Mc, unicode.Nd, unicode.Pc) || unicode.Is(unicode.Properties["Other_ID_Continue"], r)) &&
		!unicode.Is(unicode.Properties["Pattern_Syntax"], r) && !unicode.Is(unicode.Properties["Pattern_White_Space"], r)
}

func unicodeWord(r rune) bool { return idContinue(r) || r == '$' || r == 0x200c || r == 0x200d }

type boundary12 struct {
	name string
	fn   p.ParserFn
	word func(rune) bool
}

// check runs the assertion at pos; the characters before and after are given.
func (b boundary12) check(w *kit.W, src string, pos int, before, after bool) {
	ctx := p.ParserContext{Str: src, AstStack: p.AstSlice{prefixAst(0)}[:1:1]}
	ctx.Position, ctx.Length, ctx.Quantity, ctx.Tag = pos, 9, 4, 7
	out, err := b.fn(ctx)
	w.Eval()
	want := p.MatchStatus_Unmatched
	if before != after {
		want = p.MatchStatus_Matched
	}
	if err != nil || out.MatchStatus != want {
		w.Fail("%s on %q at %d: %v %v, want %v", b.name, src, pos, out.MatchStatus, err, want)
		return
	}
	if want == p.MatchStatus_Matched && (out.Position != pos || len(out.AstStack) != 1 || out.Length != 0 || out.Tag != 7 || out.Str != src) {
		w.Fail("%s on %q at %d is not zero-width: position %d length %d entries %d", b.name, src, pos, out.Position, out.Length, len(out.AstStack))
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C12", Level: "exploration",
		Rule:        "one case per block of code points or per source text; non-trivial when boundaries and non-boundaries both occur",
		Bounds:      "both assertions with every code point on either side of the position: at the start, at the end, between it and word / non-word characters of 1..4 bytes; all texts of up to 5 (thorough 6) characters over 15 characters of 1..4 bytes, at every character boundary; the same over 11 units with ill-formed bytes",
		Assumptions: []string{"positions are character boundaries", "the Unicode tables of the Go toolchain are right"},
		Run:         run12,
	})
}

func run12(r *kit.Run) {
	bs := []boundary12{{"WordBoundary", str.WordBoundary(), asciiWord}, {"UnicodeWordBoundary", extra.UnicodeWordBoundary(), unicodeWord}}
	around := []rune{'a', '-', '_', '$', 'é', '×', '漢', '。', '𝒜', '😀', 0x200c, 0x200b, 0x0301}
	const block = 256
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		var c rune
		w.Desc(func() string { return fmt.Sprintf("U+%04X", c) })
		yes, no := false, false
		for c = rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			s := string(c)
			for _, b := range bs {
				wd := b.word(c)
				if wd {
					yes = true
				} else {
					no = true
				}
				b.check(w, s, 0, false, wd)
				b.check(w, s, len(s), wd, false)
				for _, n := range around {
					t := string(n)
					nd := b.word(n)
					b.check(w, s+t, len(s), wd, nd)
					b.check(w, t+s, len(t), nd, wd)
				}
				if w.Failed() {
					return
				}
			}
		}
		w.States(block)
		if yes && no {
			w.Nontrivial()
		}
	})
	size := 5
	if r.Thorough {
		size = 6
	}
	all := kit.NewStrings(size, "a", "Z", "0", "_", "$", "-", " ", "\n", "é", "×", "漢", "。", "𝒜", "😀", "\u200d")
	r.Sub("texts", all.Len(), func(w *kit.W, i int) {
		src := all.At(i)
		w.Descf("%q", src)
		w.States(1)
		rs := []rune(src)
		for _, b := range bs {
			pos := 0
			n := 0
			for k := 0; k <= len(rs); k++ {
				before := k > 0 && b.word(rs[k-1])
				after := k < len(rs) && b.word(rs[k])
				if before != after {
					n++
				}
				b.check(w, src, pos, before, after)
				if w.Failed() {
					return
				}
				if k < len(rs) {
					pos += len(string(rs[k]))
				}
			}
			if n > 0 && n <= len(rs) {
				w.Nontrivial()
			}
			w.SeeStr(fmt.Sprint(b.name, n))
		}
	})
	// a bad byte counts as one replacement character, which is no word character
	bad := kit.NewStrings(size, "a", "$", "-", "é", "漢", "\u200d", "\xff", "\xc3", "\x80", "\xe6\xbc", "\ufffd")
	r.Sub("ill-formed", bad.Len(), func(w *kit.W, i int) {
		src := bad.At(i)
		w.Descf("%q", src)
		w.States(1)
		for _, b := range bs {
			before := false
			n := 0
			for pos := 0; ; {
				ch, l := utf8.DecodeRuneInString(src[pos:])
				after := l > 0 && b.word(ch)
				if before != after {
					n++
				}
				b.check(w, src, pos, before, after)
				if w.Failed() || l == 0 {
					break
				}
				pos += l
				before = after
				if _, back := utf8.DecodeLastRuneInString(src[:pos]); back != l {
					before = b.word(utf8.RuneError)
				}
			}
			if n > 0 {
				w.Nontrivial()
			}
		}
	})
}
