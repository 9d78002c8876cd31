package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C15", Level: "exploration",
		Rule:        "one case per list of texts or per code point block; non-trivial when something is joined or removed",
		Bounds:      "concatenation and the three trims on every list of up to 3 texts of up to 2 units and every text of up to 6 (thorough 7) units over blanks, letters, other Unicode spaces and ill-formed bytes; every code point at either end; lists of up to 2050 entries and texts of up to 70000 bytes; every position of a non-string entry of 14 kinds in lists of up to 4, and every power of two, the ends and the middle of lists of up to 2500",
		Assumptions: []string{"the documented blanks are HT LF VT FF CR SP NEL NBSP"},
		Run:         run15,
	})
}

var blank15 = among(9, 10, 11, 12, 13, 0x20, 0x85, 0xa0)

// trim15 removes leading (bit 0) and trailing (bit 1) blanks, character by character.
func trim15(s string, ends int) string {
	if ends&1 != 0 {
		for {
			r, n := decode(s)
			if n == 0 || !blank15(r) {
				break
			}
			s = s[n:]
		}
	}
	if ends&2 != 0 {
	outer:
		for {
			for n := 1; n <= 2 && n <= len(s); n++ {
				// a blank is one byte, or two (NEL, NBSP); its first byte is never a continuation
				if r, m := decode(s[len(s)-n:]); m == n && blank15(r) {
					s = s[:len(s)-n]
					continue outer
				}
			}
			break
		}
	}
	return s
}

func run15(r *kit.Run) {
	type op struct {
		name string
		tr   p.TransformerFn
		ends int
	}
	ops := []op{{"Concat", str.Concat, 0}, {"TrimStart", str.TrimStart, 1}, {"TrimEnd", str.TrimEnd, 2}, {"Trim", str.Trim, 3}}
	check := func(w *kit.W, texts []string) {
		want := strings.Join(texts, "")
		for v := 0; v < 2*len(ops); v++ {
			o, same := ops[v/2], v%2 == 1 // where the entries say they come from
			w.Desc(func() string {
				if len(want) > 300 {
					return fmt.Sprintf("%s of %d texts, %d bytes", o.name, len(texts), len(want))
				}
				return fmt.Sprintf("%s of %q", o.name, texts)
			})
			l := make(p.AstSlice, 0, len(texts)+1)
			for k, t := range texts {
				l = append(l, p.Ast{ClassName: "c", Type: p.AstType_String, Value: t, SourcePosition: p.SourcePosition{Position: k + 4}})
				if same {
					l[k].SourcePosition = p.SourcePosition{Position: 4, Length: 3}
					l[k].OpCode = 2
				}
			}
			out, err := o.tr(p.ParserContext{}, l)
			w.Eval()
			exp := trim15(want, o.ends)
			if exp != want || len(texts) > 1 {
				w.Nontrivial()
			}
			if err != nil || len(out) != 1 || out[0].Type != p.AstType_String || out[0].Value != exp {
				w.Fail("%v %s, want %q", err, dump(out), exp)
				return
			}
			for k := range l {
				if l[k].Value != texts[k] || l[k].Type != p.AstType_String {
					w.Fail("the given list was modified")
					return
				}
			}
		}
		w.States(1)
	}
	n := 6
	if r.Thorough {
		n = 7
	}
	text := kit.NewStrings(n, "\t", " ", "\u0085", "\u00a0", "a", "\u2003", "\ufeff", "\u200b", "\xc2", "\x85", "\u3000", "é")
	r.Sub("texts", text.Len(), func(w *kit.W, i int) { check(w, []string{text.At(i)}) })
	part := words(2, " ", "\n", "\u00a0", "b", "\u2028", "\xc2", "\xa0")
	r.Sub("lists", len(part)*len(part)*len(part)+1, func(w *kit.W, i int) {
		if i == 0 {
			check(w, nil)
			return
		}
		i--
		check(w, []string{part[i%len(part)], part[i/len(part)%len(part)], part[i/len(part)/len(part)]})
		if !w.Failed() && i < len(part)*len(part) {
			check(w, []string{part[i%len(part)], part[i/len(part)%len(part)]})
		}
	})
	const block = 512
	r.Sub("code-points", 0x110000/block, func(w *kit.W, i int) {
		for c := rune(i * block); c < rune((i+1)*block) && !w.Failed(); c++ {
			if c < 0xd800 || c > 0xdfff {
				s := string(c)
				check(w, []string{s + "a" + s})
				check(w, []string{s + s, " ", s})
			}
		}
	})
	bytes := words(3, func() (a []string) {
		for _, b := range []byte{0, 9, 0x20, 0x85, 0xa0, 0xc2, 0xe2, 0x80, 0xff, 'x'} {
			a = append(a, string([]byte{b}))
		}
		return
	}()...)
	r.Sub("ill-formed", len(bytes)*len(bytes)/10, func(w *kit.W, i int) {
		a, b := bytes[i%len(bytes)], bytes[i/len(bytes)]
		check(w, []string{a, b})
	})
	sizes := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2050}
	r.Sub("sizes", len(sizes)*5, func(w *kit.W, i int) {
		k := sizes[i/5]
		var l []string
		switch i % 5 {
		case 0: // many entries
			for j := 0; j < k; j++ {
				l = append(l, fmt.Sprintf(" %d é", j))
			}
		case 1: // long entries
			l = []string{strings.Repeat(" ", k) + strings.Repeat("ab", k*16) + strings.Repeat("\u00a0", k), strings.Repeat("\t", k)}
		case 2: // many empty entries and blanks only
			for j := 0; j < k; j++ {
				l = append(l, []string{"", " ", "\u0085"}[j%3])
			}
		case 3: // the same entry again and again, at the same place
			for j := 0; j < k; j++ {
				l = append(l, "ab")
			}
		case 4: // pairs of equal entries
			for j := 0; j < k; j++ {
				l = append(l, string(rune('a'+j/2%26)))
			}
		}
		check(w, l)
	})
	// entries that are not strings
	odd := []p.Ast{{Type: p.AstType_Nil}, {Type: p.AstType_Rune, Value: 'a'}, {Type: p.AstType_Int, Value: int64(1)}, {Type: p.AstType_Uint, Value: uint64(1)}, {Type: p.AstType_Float, Value: 1.5}, {Type: p.AstType_Bool, Value: true},
		{Type: p.AstType_AstCons, Value: p.AstCons{}}, {Type: p.AstType_ListOfAst, Value: p.AstSlice{}}, {Type: p.AstType_ListOfAny, Value: objs{}}, {Type: p.AstType_Function, Value: func() {}}, {Type: p.AstType_Any, Value: 7}, {Type: p.AstType_Any, Value: []byte("a")}, {Type: p.AstType_Any, Value: "s"}, {Type: p.AstType_Nil, Value: "s"}}
	r.Sub("not-a-string", len(odd)*len(ops)*2, func(w *kit.W, i int) {
		o := ops[i%len(ops)]
		bad := odd[i/len(ops)%len(odd)]
		for n := 1; n <= 4; n++ {
			for at := 0; at < n; at++ {
				var l p.AstSlice
				for k := 0; k < n; k++ {
					l = append(l, p.Ast{Type: p.AstType_String, Value: []string{"x", ""}[i/len(ops)/len(odd)]})
				}
				l[at] = bad
				w.Descf("%s with a %v at %d of %d", o.name, bad.Type, at, n)
				out, err := o.tr(p.ParserContext{}, l)
				w.Eval()
				w.Nontrivial()
				if err == nil {
					w.Fail("no error: %s", dump(out))
					return
				}
			}
		}
	})
	long := []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2500}
	r.Sub("not-a-string-in-long-lists", len(long)*len(odd), func(w *kit.W, i int) {
		n, bad := long[i/len(odd)], odd[i%len(odd)]
		ats := []int{0, 1, n / 2, n - 2, n - 1}
		for k := 1; k < n; k *= 2 {
			ats = append(ats, k-1, k)
		}
		for _, o := range ops {
			l := make(p.AstSlice, n)
			for k := range l {
				l[k] = p.Ast{Type: p.AstType_String, Value: "x"}
			}
			for _, at := range ats {
				w.Descf("%s with a %v at %d of %d", o.name, bad.Type, at, n)
				kept := l[at]
				l[at] = bad
				out, err := o.tr(p.ParserContext{}, l)
				l[at] = kept
				w.Eval()
				w.Nontrivial()
				if err == nil {
					w.Fail("no error: %.200s", dump(out))
					return
				}
			}
		}
	})
}
