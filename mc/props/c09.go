package props

import (
	"fmt"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

// decode is a UTF-8 decoder written from the Unicode standard (table 3-7): an ill-formed
// byte is one replacement character of length 1.
func decode(s string) (rune, int) {
	if s == "" {
		return 0, 0
	}
	b := s[0]
	cont := func(k int, lo, hi byte) bool { return k < len(s) && lo <= s[k] && s[k] <= hi }
	c := func(k int) rune { return rune(s[k] & 0x3f) }
	switch {
	case b < 0x80:
		return rune(b), 1
	case b >= 0xc2 && b <= 0xdf:
		if cont(1, 0x80, 0xbf) {
			return rune(b&0x1f)<<6 | c(1), 2
		}
	case b >= 0xe0 && b <= 0xef:
		lo, hi := byte(0x80), byte(0xbf)
		if b == 0xe0 {
			lo = 0xa0
		}
		if b == 0xed {
			hi = 0x9f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) {
			return rune(b&0xf)<<12 | c(1)<<6 | c(2), 3
		}
	case b >= 0xf0 && b <= 0xf4:
		lo, hi := byte(0x80), byte(0xbf)
		if b == 0xf0 {
			lo = 0x90
		}
		if b == 0xf4 {
			hi = 0x8f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) {
			return rune(b&7)<<18 | c(1)<<12 | c(2)<<6 | c(3), 4
		}
	}
	return 0xfffd, 1
}

// charOf is the text of one decoded character.
func charOf(s string, r rune, n int) string {
	if r == 0xfffd {
		return "\xef\xbf\xbd"
	}
	return s[:n]
}

type class09 struct {
	name, class string
	fn          p.ParserFn
	in          func(r rune) bool
}

func among(cs ...rune) func(rune) bool {
	return func(r rune) bool {
		for _, c := range cs {
			if r == c {
				return true
			}
		}
		return false
	}
}

func between(pairs ...rune) func(rune) bool {
	return func(r rune) bool {
		for i := 0; i < len(pairs); i += 2 {
			if pairs[i] <= r && r <= pairs[i+1] {
				return true
			}
		}
		return false
	}
}

func classes09() []class09 {
	return []class09{
		{"Any", ":string:Any", str.Any(), func(rune) bool { return true }},
		{"Whitespace", ":string:Whitespace", str.Whitespace(), among(9, 10, 11, 12, 13, 0x20, 0x85, 0xa0)},
		{"WhitespaceNoLineBreak", ":string:WhitespaceNoLineBreak", str.WhitespaceNoLineBreak(), among(9, 0x20, 0xa0)},
		{"LineBreak", ":string:LineBreak", str.LineBreak(), among(10, 11, 12, 13, 0x85)},
		{"Alpha", ":string:Alpha", str.Alpha(), between(0x41, 0x5a, 0x61, 0x7a)},
		{"Number", ":string:Number", str.Number(), between(0x30, 0x39)},
		{"Alnum", ":string:Alnum", str.Alnum(), between(0x41, 0x5a, 0x61, 0x7a, 0x30, 0x39)},
		{"BinNumber", ":string:BinNumber", str.BinNumber(), between(0x30, 0x31)},
		{"OctNumber", ":string:OctNumber", str.OctNumber(), between(0x30, 0x37)},
		{"HexNumber", ":string:HexNumber", str.HexNumber(), between(0x30, 0x39, 0x41, 0x46, 0x61, 0x66)},
	}
}

// oneTok checks the run of a terminal: n is the expected length (negative: unmatched).
func oneTok(w *kit.W, fn p.ParserFn, src string, pos int, n int, text string) bool {
	out, err := fn(p.ParserContext{Str: src, SourcePosition: p.SourcePosition{Position: pos}})
	w.Eval()
	switch {
	case err != nil:
		w.Fail("error %v", err)
	case n < 0:
		if out.MatchStatus != p.MatchStatus_Unmatched {
			w.Fail("status %v, want unmatched; consumed %q", out.MatchStatus, src[pos:out.Position])
		}
	case out.MatchStatus != p.MatchStatus_Matched:
		w.Fail("status %v, want a match of %q", out.MatchStatus, text)
	case out.Position != pos+n:
		w.Fail("next position %d, want %d", out.Position, pos+n)
	case len(out.AstStack) != 1:
		w.Fail("%d entries, want 1", len(out.AstStack))
	case out.AstStack[0].Type != p.AstType_String || out.AstStack[0].Value != text:
		w.Fail("token %v %#v, want %q", out.AstStack[0].Type, out.AstStack[0].Value, text)
	}
	if w.Failed() || n < 0 && pos&1 == 0 {
		return !w.Failed()
	}
	// in the middle of a parse: entries on the stack, everything else stale
	var room [2]p.Ast
	room[0] = lit09
	ctx := p.ParserContext{Str: src, AstStack: room[:1], Tag: 5, Quantity: 3, MatchStatus: p.MatchStatus_Error, ClassName: "stale", SourcePosition: p.SourcePosition{Position: pos, Length: 9}}
	out, err = fn(ctx)
	w.Eval()
	switch {
	case err != nil:
		w.Fail("in mid-parse: error %v", err)
	case n < 0:
		if out.MatchStatus != p.MatchStatus_Unmatched {
			w.Fail("in mid-parse: status %v, want unmatched", out.MatchStatus)
		}
	case out.MatchStatus != p.MatchStatus_Matched || out.Position != pos+n || out.Tag != 5 || out.Str != src:
		w.Fail("in mid-parse: status %v position %d tag %v source %q, want a match of %q", out.MatchStatus, out.Position, out.Tag, out.Str, text)
	case len(out.AstStack) != 2 || out.AstStack[1].Value != text:
		w.Fail("in mid-parse: entries %s, want one more: %q", dump(out.AstStack), text)
	}
	if room[0] != lit09 {
		w.Fail("in mid-parse: the entry below became %v", room[0])
	}
	return !w.Failed()
}

var lit09 = p.Ast{ClassName: "below", OpCode: 4, Type: p.AstType_String, Value: "below", SourcePosition: p.SourcePosition{Position: 1, Length: 2}}

func init() {
	kit.Register(&kit.Check{
		ID: "C09", Level: "exploration",
		Rule:        "one case per block of code points, or per leading bytes of a byte string; every case is non-trivial when some terminal matches and another does not",
		Bounds:      "10 predefined terminals on every code point 0..10FFFF (alone, before and after other characters, next to combining marks); on every byte string of 1 and 2 bytes and, over 31 boundary bytes, of 3 and 4 (thorough: 5) bytes, at every byte position, and walked from start to end",
		Assumptions: []string{"the documented character sets (library comments), written down independently in the check"},
		Run:         run09,
	})
}

func run09(r *kit.Run) {
	cls := classes09()
	const block = 256
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		var cp rune
		var name, src string
		w.Desc(func() string { return fmt.Sprintf("U+%04X %s on %q", cp, name, src) })
		yes, no := false, false
		for cp = rune(i * block); cp < rune((i+1)*block); cp++ {
			if cp >= 0xd800 && cp <= 0xdfff {
				continue
			}
			ch := string(cp)
			if r, n := decode(ch); r != cp || n != len(ch) {
				w.Fail("the reference decoder is wrong")
				return
			}
			for k, pre := range []string{"", "é", "a", ""} {
				post := []string{"", "", "́z", "0"}[k]
				src = pre + ch + post
				for _, c := range cls {
					name = c.name
					n := -1
					if c.in(cp) {
						n = len(ch)
						yes = true
					} else {
						no = true
					}
					if !oneTok(w, c.fn, src, len(pre), n, ch) {
						return
					}
				}
			}
		}
		w.States(block)
		if yes && no {
			w.Nontrivial()
		}
	})
	at := func(w *kit.W, src string) {
		var name string
		var pos int
		w.Desc(func() string { return fmt.Sprintf("%s on %q at %d", name, src, pos) })
		w.States(len(src) + 1)
		for _, c := range cls {
			name = c.name
			for pos = 0; pos <= len(src); pos++ {
				ch, n := decode(src[pos:])
				if n == 0 || !c.in(ch) {
					oneTok(w, c.fn, src, pos, -1, "")
				} else {
					oneTok(w, c.fn, src, pos, n, charOf(src[pos:], ch, n))
				}
				if w.Failed() {
					return
				}
			}
		}
		// a walk over the whole text yields one token per character
		name = "walk"
		pos = 0
		out, err := p.ZeroOrMoreTimes(cls[0].fn)(p.ParserContext{Str: src})
		w.Eval()
		if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != len(src) {
			w.Fail("walk ended at %d %v %v", out.Position, out.MatchStatus, err)
			return
		}
		k := 0
		for pos < len(src) {
			ch, n := decode(src[pos:])
			if k >= len(out.AstStack) || out.AstStack[k].Value != charOf(src[pos:], ch, n) || out.AstStack[k].Position != pos || out.AstStack[k].Length != n {
				w.Fail("token %d of the walk is wrong: %v", k, dump(out.AstStack))
				return
			}
			pos += n
			k++
		}
		if k != len(out.AstStack) {
			w.Fail("the walk has %d tokens, want %d", len(out.AstStack), k)
		}
		w.SeeStr(fmt.Sprint(k))
	}
	r.Sub("two-bytes", 256, func(w *kit.W, i int) {
		at(w, string([]byte{byte(i)}))
		for b := 0; b < 256 && !w.Failed(); b++ {
			at(w, string([]byte{byte(i), byte(b)}))
		}
		w.Nontrivial()
	})
	edge := []byte{0, 9, 0x0a, 0x0d, 0x20, 0x30, 0x39, 0x41, 0x5a, 0x61, 0x7f, 0x80, 0x85, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xfe, 0xff}
	n := 4
	if r.Thorough {
		n = 5
	}
	var alpha []string
	for _, b := range edge {
		alpha = append(alpha, string([]byte{b}))
	}
	all := kit.NewStrings(n, alpha...)
	r.Sub("boundary-bytes", all.Len(), func(w *kit.W, i int) { at(w, all.At(i)); w.Nontrivial() })
	four := []string{"\x41", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc2", "\xe0", "\xed", "\xf0", "\xf4"}
	all4 := kit.NewStrings(4, four...)
	r.Sub("four-bytes", all4.Len(), func(w *kit.W, i int) { at(w, all4.At(i)); w.Nontrivial() })
}
