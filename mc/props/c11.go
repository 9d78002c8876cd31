package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

// terminals11 are all string terminals with the reference that reads one token.
func terminals11() []*peg.Op {
	ops := []*peg.Op{
		peg.Seq("a"), peg.Seq("aé"), peg.Seq("漢"), peg.Seq(""), peg.CharClass("b", "é", "1 "), peg.CharClassN("a", "é1"), peg.CharRange('b', '漢'),
		peg.Tok("[^b-漢]", ":string:CharRangeN", func() p.ParserFn { return str.CharRangeN(p.RuneRange{Start: 'b', End: '漢'}) },
			peg.OneChar(func(r rune) bool { return r < 'b' || r > '漢' })),
		peg.Tok("seqi", ":string:SeqI", func() p.ParserFn { return str.SeqI("AÉ") }, func(rest string) (int, string) {
			if n := foldPrefix(rest, "AÉ"); n >= 0 {
				return n, rest[:n]
			}
			return -1, ""
		}),
		peg.Tok("fn", ":string:CharClassFn", func() p.ParserFn { return str.CharClassFn(func(r rune) bool { return r > 0x7f }) },
			peg.OneChar(func(r rune) bool { return r > 0x7f })),
		peg.CharClass("é", ""), peg.CharClass("", "a"), peg.Tok("seqi-empty", ":string:SeqI", func() p.ParserFn { return str.SeqI("") }, peg.Prefix("")),
		peg.Seq("a漢é😀a"), peg.CharClass("a漢é", "a漢", "1 a"),
		peg.Tok("seqi-long", ":string:SeqI", func() p.ParserFn { return str.SeqI("AÉaéÉ") }, func(rest string) (int, string) {
			if n := foldPrefix(rest, "AÉaéÉ"); n >= 0 {
				return n, rest[:n]
			}
			return -1, ""
		}),
	}
	for _, c := range classes09() {
		c := c
		ops = append(ops, peg.Tok(c.name, c.class, func() p.ParserFn { return c.fn }, peg.OneChar(c.in)))
	}
	return ops
}

func init() {
	kit.Register(&kit.Check{
		ID: "C11", Level: "model_checking",
		Bounds:      "26 string terminals alone, in all sequences of up to 2 (thorough 3), in repetitions and groups with erased, inserted, concatenated and renamed parts, on all texts of up to 4 units over 1..4-byte and ill-formed units, at every start; 0..800 entries inserted at once; combined (concatenated, trimmed) tokens over all sequences of up to 3 (thorough 4) of 13 members; the 14 composed literal parsers and 18 converters on parts at distinct locations; 5 object terminals on all lists of up to 4",
		Assumptions: []string{"the length of a combined token and the location of a group are not defined"},
		Run:         run11,
	})
}

func run11(r *kit.Run) {
	terms := terminals11()
	in := words(3, "a", "1", " ", "é", "漢", "😀", "\xff")
	in = append(in, words(4, "a", "é", "漢")...)
	in = append(in, "a漢é😀a", "xa漢é😀a1 a", "aéaéé", "AÉAÉÉ", "é1aÉaéÉaé", "aéaé", "a漢é😀")
	Terms(r, "terminals", Explore{Space: peg.NewSpace(1, terms...), Inputs: in, Starts: true, Variants: vAll, Rotate: true, Extra: cover11})
	core := append([]*peg.Op{}, terms...)
	core = append(core, peg.Zero("zero1", z1), peg.Zero("zero2", z1, z2), peg.Start(), peg.End(), peg.Star(1), peg.Opt(1), peg.Rep(1, 2, 2), peg.Group(1), peg.Erased(), peg.Concat(), peg.Named("renamed"), peg.Pushed(), peg.Prepended(), peg.Ahead(1, false), peg.Ahead(1, true), peg.Behind(1, 1, 2, false), peg.Lazy(), peg.Flat(2), peg.First(2))
	size := 3
	if r.Thorough {
		size = 4
	}
	short := append(words(2, "a", "1", "é", "漢", "\xff"), "aéaé", "漢a漢", "b1 é", "😀😀b")
	Terms(r, "composed", Explore{Space: peg.NewSpace(size, core...), Inputs: short, Starts: true, Variants: vAll, Rotate: true})
	small := []*peg.Op{peg.Seq("aé"), peg.CharClassN("x"), peg.Tok("fn", ":string:CharClassFn", func() p.ParserFn { return str.CharClassFn(func(r rune) bool { return r > 0x7f }) }, peg.OneChar(func(r rune) bool { return r > 0x7f })), peg.Zero("z", z1), peg.Star(1), peg.Concat(), peg.Erased(), peg.Group(1), peg.Flat(2), peg.First(2)}
	Terms(r, "composed-deep", Explore{Space: peg.NewSpace(size+1, small...), Inputs: short, Starts: true, Variants: vAll, Rotate: true})

	// many inserted entries
	r.Sub("inserted", 70, func(w *kit.W, i int) {
		n := i
		if i > 40 {
			n = (i - 38) * 25
		}
		var l []peg.R
		for k := 0; k < n; k++ {
			l = append(l, strR(fmt.Sprint("z", k), fmt.Sprint(k)))
		}
		z := func() *peg.Node { return peg.N(peg.Zero(fmt.Sprint(n, " entries"), l...)) }
		for k, t := range []*peg.Node{
			z(), peg.N(peg.Flat(2), peg.N(peg.Seq("aé")), z()), peg.N(peg.Group(3), z(), peg.N(peg.Seq("a")), z()), peg.N(peg.Flat(2), peg.N(peg.Erased(), peg.N(peg.Seq("a"))), z()),
			peg.N(peg.Rep(2, 2, 2), peg.N(peg.Flat(2), peg.N(peg.AnyChar()), z())), peg.N(peg.Concat(), peg.N(peg.Flat(2), peg.N(peg.Seq("a")), z())),
		} {
			t.Number()
			runTerm(w, t, i+k, Explore{Inputs: []string{"aéa", "é", ""}, Starts: true, Variants: vAll, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
		}
	})

	// composed literal parsers: one token that starts where the first part starts
	type named struct {
		name string
		fn   p.ParserFn
		good []string
	}
	lit := []named{
		{"BinaryNumberStr", extra.BinaryNumberStr(), []string{"1_0", "0"}}, {"OctalNumberStr", extra.OctalNumberStr(), []string{"17_"}}, {"HexNumberStr", extra.HexNumberStr(), []string{"fF_9"}},
		{"IntegerNumberStr", extra.IntegerNumberStr(), []string{"-1_2", "0_", "+7"}}, {"FloatNumberStr", extra.FloatNumberStr(), []string{"-1.5e3", ".5", "1e-2"}}, {"NumericStr", extra.NumericStr(), []string{"1.", "-.5e1", "7"}},
		{"AsciiIdentifierStr", extra.AsciiIdentifierStr(), []string{"ab1", "$"}}, {"UnicodeIdentifierStr", extra.UnicodeIdentifierStr(), []string{"éa漢", "$_"}},
		{"DateStr", extra.DateStr(), []string{"2020-01-02", "-0001-01-01"}}, {"TimeStr", extra.TimeStr(), []string{"10:20", "10:20:30.5"}}, {"DateTimeStr", extra.DateTimeStr(), []string{"2020-01-02T10:20Z", "2020-01-02T10:20:30.5+09:00"}},
		{"Concat", p.Trans(p.OneOrMoreTimes(str.Alpha()), str.Concat), []string{"abc"}}, {"Trim", p.Trans(p.OneOrMoreTimes(str.CharClassN("|")), str.Trim), []string{" abc "}},
		{"ParseInt", p.Trans(extra.IntegerNumberStr(), str.ParseInt), []string{"-12"}},
	}
	r.Sub("composed-literals", len(lit), func(w *kit.W, i int) {
		l := lit[i]
		for _, pre := range []string{"", "|", "é|", "漢😀|", "\xff\n|"} {
			for _, g := range l.good {
				src := pre + g + "|"
				w.Descf("%s on %q at %d", l.name, src, len(pre))
				ctx := p.ParserContext{Str: src}
				ctx.Position, ctx.Length = len(pre), 13
				out, err := l.fn(ctx)
				w.Eval()
				if err != nil || out.MatchStatus != p.MatchStatus_Matched || len(out.AstStack) != 1 {
					w.Fail("%v %v %s", out.MatchStatus, err, dump(out.AstStack))
					return
				}
				if out.AstStack[0].Position != len(pre) {
					w.Fail("token starts at %d, want %d", out.AstStack[0].Position, len(pre))
					return
				}
				if out.Position <= len(pre) || out.Position > len(src)-1 {
					w.Fail("next position %d", out.Position)
					return
				}
			}
		}
		w.States(1)
		w.Nontrivial()
	})
	// combined tokens over every sequence of members: inserted, skipped, optional and empty parts
	combine := func(name string, tr p.TransformerFn, f func(string) string) *peg.Op {
		return peg.Trans(name, []p.TransformerFn{tr}, func(_ *peg.M, _, _ peg.S, l []peg.R) ([]peg.R, string) {
			l, msg := peg.ConcatR(l)
			if msg == "" {
				l[0].Val = f(l[0].Val.(string))
			}
			return l, msg
		})
	}
	trs := []func(k *peg.Node) *peg.Node{}
	for _, o := range []*peg.Op{peg.Concat(), combine("trim", str.Trim, strings.TrimSpace), combine("trimstart", str.TrimStart, func(s string) string { return strings.TrimLeft(s, " ") }), combine("trimend", str.TrimEnd, func(s string) string { return strings.TrimRight(s, " ") })} {
		o := o
		trs = append(trs, func(k *peg.Node) *peg.Node { return peg.N(o, k) })
	}
	op := func(o *peg.Op, kids ...func() *peg.Node) func() *peg.Node {
		return func() *peg.Node {
			var k []*peg.Node
			for _, f := range kids {
				k = append(k, f())
			}
			return peg.N(o, k...)
		}
	}
	A, sp, any := op(peg.Seq("a")), op(peg.Seq(" ")), op(peg.AnyChar())
	pool := []func() *peg.Node{A, any, op(peg.Erased(), any), op(peg.Erased(), op(peg.Star(1), sp)), op(peg.Opt(1), A), op(peg.Star(1), sp), op(peg.Zero("empty", strR("ins", ""))), op(peg.Zero("ins", strR("ins", "q"))),
		op(peg.Zero("two", strR("i1", ""), strR("i2", "r"))), op(peg.Concat(), op(peg.Flat(2), sp, A)), op(peg.Concat(), op(peg.Flat(2), op(peg.Zero("e2", strR("i3", ""))), any)), op(peg.Ahead(1, false), any), op(peg.Prepended(), op(peg.Erased(), any))}
	widest := 3
	if r.Thorough {
		widest = 4
	}
	for k := 1; k <= widest; k++ {
		n := 1
		for i := 0; i < k; i++ {
			n *= len(pool)
		}
		r.Sub(fmt.Sprintf("combined-%d", k), n*len(trs), func(w *kit.W, i int) {
			j := i / len(trs)
			var kids []*peg.Node
			for x := 0; x < k; x++ {
				kids = append(kids, pool[j%len(pool)]())
				j /= len(pool)
			}
			t := peg.N(peg.Flat(3), peg.N(peg.Erased(), peg.N(peg.Opt(1), peg.N(peg.Seq("é")))), trs[i%len(trs)](peg.N(peg.Flat(k), kids...)), peg.N(peg.Zero("after", strR("after", "z"))))
			t.Number()
			runTerm(w, t, i, Explore{Inputs: []string{"a a a", "é aa ", "éa  漢", "aa", "  a", ""}, Variants: vAll, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
		})
	}
	// converters keep the location of the first part
	type conv struct {
		name string
		tr   p.TransformerFn
		typ  p.AstType
		vals []interface{}
	}
	s := func(v ...interface{}) []interface{} { return v }
	convs := []conv{
		{"Concat", str.Concat, p.AstType_String, s("1", "2", "3")}, {"Trim", str.Trim, p.AstType_String, s(" 1", "2", "3 ")}, {"TrimStart", str.TrimStart, p.AstType_String, s(" 1", "2", "3")}, {"TrimEnd", str.TrimEnd, p.AstType_String, s("1", "2", "3 ")},
		{"ParseInt", str.ParseInt, p.AstType_String, s("1", "2", "3")}, {"ParseIntRadix", str.ParseIntRadix(16), p.AstType_String, s("1", "f", "3")}, {"ParseUint", str.ParseUint, p.AstType_String, s("1", "2", "3")}, {"ParseUintRadix", str.ParseUintRadix(2), p.AstType_String, s("1", "0", "1")}, {"ParseFloat", str.ParseFloat, p.AstType_String, s("1", ".", "3")},
		{"RuneFromInt", str.RuneFromInt, p.AstType_Int, s(int64(65))}, {"IntFromRune", str.IntFromRune, p.AstType_Rune, s('A')}, {"StringFromInt", str.StringFromInt, p.AstType_Int, s(int64(65))}, {"StringFromRune", str.StringFromRune, p.AstType_Rune, s('A')},
		{"ToSlice", p.ToSlice, p.AstType_Any, s(1, 2, 3)},
		{"SetOpCode", p.SetOpCode(3), p.AstType_Any, s(1, 2)}, {"ChangeClassName", p.ChangeClassName("z"), p.AstType_Any, s(1, 2)}, {"SetValue", p.SetValue(p.AstType_Int, int64(1)), p.AstType_Any, s(1, 2)}, {"SetOpCodeAndClassName", p.SetOpCodeAndClassName(1, "q"), p.AstType_Any, s(1, 2)},
	}
	r.Sub("converters", len(convs), func(w *kit.W, i int) {
		c := convs[i]
		for n := 1; n <= len(c.vals); n++ {
			// every pattern of empty and non-empty parts, adjacent or with skipped text between
			for v := 0; v < 4<<(2*n); v++ {
				pos := []int{0, 1, 7, 1 << 40}[v&3]
				var l p.AstSlice
				at := pos
				for k := 0; k < n; k++ {
					length := v >> (2 + 2*k) & 1 * 2
					l = append(l, p.Ast{ClassName: "c", Type: c.typ, Value: c.vals[k], SourcePosition: p.SourcePosition{Position: at, Length: length}})
					at += length + v>>(3+2*k)&1
				}
				w.Descf("%s of %s", c.name, dump(l))
				ctx := p.ParserContext{Slice: objs{}}
				ctx.Position, ctx.Length = 99, 5
				out, err := c.tr(ctx, l)
				w.Eval()
				if err != nil || len(out) == 0 {
					w.Fail("%v %s", err, dump(out))
					return
				}
				if out[0].Position != pos {
					w.Fail("starts at %d, want %d", out[0].Position, pos)
					return
				}
			}
		}
		w.States(1)
		w.Nontrivial()
	})
	// object terminals
	type objT struct {
		name, class string
		fn          p.ParserFn
		n           func(rest objs) int
	}
	ots := []objT{
		{"Any", ":object:Any", obj.Any(), func(l objs) int {
			if len(l) > 0 {
				return 1
			}
			return -1
		}},
		{"Seq", ":object:Seq", obj.Seq(1, 2), func(l objs) int {
			if len(l) >= 2 && l[0] == 1 && l[1] == 2 {
				return 2
			}
			return -1
		}},
		{"ObjClass", ":object:ObjClass", obj.ObjClass(3, 1), func(l objs) int {
			if len(l) >= 1 && (l[0] == 3 || l[0] == 1) {
				return 1
			}
			return -1
		}},
		{"ObjClassN", ":object:ObjClassN", obj.ObjClassN(3, 1), func(l objs) int {
			if len(l) >= 1 && l[0] == 2 {
				return 1
			}
			return -1
		}},
		{"ObjClassFn", ":object:ObjClassFn", obj.ObjClassFn(func(c interface{}) bool { return c != 1 }), func(l objs) int {
			if len(l) >= 1 && l[0] != 1 {
				return 1
			}
			return -1
		}},
	}
	lists := kit.NewStrings(4, "1", "2", "3")
	r.Sub("object-terminals", lists.Len(), func(w *kit.W, i int) {
		var src objs
		for _, d := range lists.Digits(i) {
			src = append(src, d+1)
		}
		for _, t := range ots {
			fn := p.FlatGroup(p.Zero(p.Ast{ClassName: "z", Type: p.AstType_Int, Value: int64(1)}), t.fn, p.Zero(p.Ast{ClassName: "z", SourcePosition: p.SourcePosition{Position: 5, Length: 5}}))
			for pos := 0; pos <= len(src); pos++ {
				w.Descf("%s on %v at %d", t.name, src, pos)
				ctx := p.ParserContext{Slice: src}
				ctx.Position, ctx.Length = pos, 13
				out, err := fn(ctx)
				w.Eval()
				w.States(1)
				n := t.n(src[pos:])
				if err != nil || (n > 0) != (out.MatchStatus == p.MatchStatus_Matched) {
					w.Fail("%v %v", out.MatchStatus, err)
					return
				}
				if n < 0 {
					continue
				}
				l := out.AstStack
				if len(l) != 3 || out.Position != pos+n || l[0].Position != pos || l[0].Length != 0 || l[1].Position != pos || l[1].Length != n || l[2].Position != pos+n || l[2].Length != 0 {
					w.Fail("next position %d, entries %s", out.Position, dump(l))
					return
				}
				if l[1].ClassName != t.class {
					w.Fail("class %q, want %q", l[1].ClassName, t.class)
					return
				}
				w.Nontrivial()
			}
		}
	})
}

// cover11 checks a single terminal's token against the source text itself.
func cover11(w *kit.W, n *peg.Node, src string, in, out p.ParserContext, err error, want peg.Result) {
	if want.St != peg.OK || len(out.AstStack) == 0 {
		return
	}
	t := out.AstStack[len(out.AstStack)-1]
	text := src[t.Position:out.Position]
	if t.Length != len(text) || t.Value != text && t.Value != strings.ToValidUTF8(text, "\uFFFD") {
		w.Fail("token %v does not describe source text %q", dump(out.AstStack), text)
	}
	if out.ClassName != n.Op.Class {
		w.Fail("the context's class is %q, want %q", out.ClassName, n.Op.Class)
	}
	w.SeeStr(fmt.Sprint(t.ClassName, t.Length))
}
