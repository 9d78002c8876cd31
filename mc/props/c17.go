package props

import (
	"fmt"
	"math/big"
	"strings"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

// tagOK checks an entry and everything below it.
func tagOK(a p.Ast) string {
	ok := true
	switch a.Type {
	case p.AstType_Rune:
		_, ok = a.Value.(rune)
	case p.AstType_Int:
		_, ok = a.Value.(int64)
	case p.AstType_Uint:
		_, ok = a.Value.(uint64)
	case p.AstType_Float:
		_, ok = a.Value.(float64)
	case p.AstType_Bool:
		_, ok = a.Value.(bool)
	case p.AstType_String:
		_, ok = a.Value.(string)
	case p.AstType_AstCons:
		var c p.AstCons
		if c, ok = a.Value.(p.AstCons); ok {
			if d := tagOK(c.Car); d != "" {
				return d
			}
			return tagOK(c.Cdr)
		}
	case p.AstType_ListOfAst:
		var l p.AstSlice
		if l, ok = a.Value.(p.AstSlice); ok {
			return tagsOK(l)
		}
	case p.AstType_Nil:
		ok = a.Value == nil
	}
	if !ok {
		return fmt.Sprintf("an entry of class %q is tagged %v and holds a %T", a.ClassName, a.Type, a.Value)
	}
	switch v := a.Value.(type) {
	case p.Ast:
		return tagOK(v)
	case p.AstSlice:
		return tagsOK(v)
	}
	return ""
}

func tagsOK(l []p.Ast) string {
	for _, a := range l {
		if d := tagOK(a); d != "" {
			return d
		}
	}
	return ""
}

// consume17 runs the library's own consumers of tags over a tree.
func consume17(l p.AstSlice) string {
	return try(func() {
		for _, a := range l {
			for _, m := range []p.WayThereMode{p.WayThereMode_None, p.WayThereMode_Last} {
				a.Traverse(func(_ interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) { return a, m, nil },
					func(_ interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
						return a, 0, p.TraverseOpcode_Nop, nil, nil
					}, func(interface{}, p.Ast, p.Ast, interface{}, error) {}, nil)
			}
			if a.Value != nil && a.Type == p.AstType_Float && a.Value.(float64) != a.Value.(float64) {
				continue // not a number: equal to nothing
			}
			if !l.ItemEquals(a, a) && a.Type != p.AstType_Any && a.Type != p.AstType_ListOfAny {
				panic("an entry differs from itself: " + dump(p.AstSlice{a}))
			}
		}
		_, _ = str.Concat(p.ParserContext{}, l)
		_, _ = str.Trim(p.ParserContext{}, l)
	})
}

func init() {
	kit.Register(&kit.Check{
		ID: "C17", Level: "exploration",
		Rule:        "one case per term or per chain of converters; non-trivial when entries are produced",
		Bounds:      "every entry produced by all terms of up to 4 nodes over 48 constructs on all inputs up to 3 units; by 31 string and object terminals (the latter on 46 kinds of Go values) and composed literal parsers; by ParseInt, ParseUint, ParseFloat and every radix on 4,864 spellings of numbers of all magnitudes; the character conversions on every code point; by every chain of up to 4 (thorough 5) of 32 transformers from 14 starting lists (chains whose next step does not apply are cut); every produced tree is traversed, compared and concatenated",
		Assumptions: []string{"entries supplied by the caller (insertions, SetValue) are tagged truthfully"},
		Run:         run17,
	})
}

func run17(r *kit.Run) {
	check := func(w *kit.W, l p.AstSlice) {
		if d := tagsOK(l); d != "" {
			w.Fail("%s: %s", d, dump(l))
			return
		}
		if d := consume17(l); d != "" {
			w.Fail("%s: %s", d, dump(l))
		}
		if len(l) > 0 {
			w.Nontrivial()
			w.SeeStr(fmt.Sprint(l[0].ClassName, l[0].Type))
		}
	}
	terms := append(terminals11(), ops02()...)
	sp := peg.NewSpace(4, terms...)
	in := words(2, "a", "b", "1", "é")
	r.Sub("terms", sp.Len(), func(w *kit.W, i int) {
		n := sp.At(i)
		n.Number()
		env := &peg.Env{}
		fn := n.Build(env)
		var src string
		w.Desc(func() string { return fmt.Sprintf("%v on %q", n, src) })
		for _, src = range in {
			if peg.Eval(n, src, vPlain.State(0, 5), env, false).Skip {
				w.Skip()
				continue
			}
			out, _ := fn(p.ParserContext{Str: src, Tag: 5})
			w.Eval()
			w.States(1)
			if check(w, out.AstStack); w.Failed() {
				return
			}
		}
	})
	// terminals and composed parsers
	type one struct {
		name string
		fn   p.ParserFn
		src  []string
	}
	ones := []one{
		{"IntegerNumberStr", extra.IntegerNumberStr(), []string{"12", "-1_2", "0"}}, {"FloatNumberStr", extra.FloatNumberStr(), []string{"1.5", ".5e3"}}, {"NumericStr", extra.NumericStr(), []string{"1.5"}}, {"BinaryNumberStr", extra.BinaryNumberStr(), []string{"101"}}, {"OctalNumberStr", extra.OctalNumberStr(), []string{"17"}}, {"HexNumberStr", extra.HexNumberStr(), []string{"fe"}},
		{"AsciiIdentifierStr", extra.AsciiIdentifierStr(), []string{"ab"}}, {"UnicodeIdentifierStr", extra.UnicodeIdentifierStr(), []string{"é"}}, {"DateStr", extra.DateStr(), []string{"2020-01-02"}}, {"TimeStr", extra.TimeStr(), []string{"10:20:30.1"}}, {"DateTimeStr", extra.DateTimeStr(), []string{"2020-01-02T10:20Z"}},
		{"ParseDate", p.Trans(extra.DateStr(), extra.ParseDate), []string{"2020-01-02"}}, {"ParseTime", p.Trans(extra.TimeStr(), extra.ParseTime), []string{"10:20"}}, {"ParseDateTime", p.Trans(extra.DateTimeStr(), extra.ParseDateTime), []string{"2020-01-02T10:20Z"}},
		{"WordBoundary", str.WordBoundary(), []string{"a"}}, {"UnicodeWordBoundary", extra.UnicodeWordBoundary(), []string{"a"}}, {"End", str.End(), []string{""}},
	}
	for _, c := range classes09() {
		ones = append(ones, one{c.name, c.fn, []string{"a", "1", " ", "\n", "f"}})
	}
	r.Sub("composed", len(ones), func(w *kit.W, i int) {
		o := ones[i]
		for _, s := range o.src {
			for _, wrap := range []func(p.ParserFn) p.ParserFn{func(f p.ParserFn) p.ParserFn { return f }, func(f p.ParserFn) p.ParserFn { return p.Group(f) }, func(f p.ParserFn) p.ParserFn { return p.Group(p.ZeroOrOnce(f), p.Group()) }} {
				w.Descf("%s on %q", o.name, s)
				out, err := wrap(o.fn)(p.ParserContext{Str: s})
				w.Eval()
				w.States(1)
				if err != nil {
					w.Fail("%v", err)
					return
				}
				if check(w, out.AstStack); w.Failed() {
					return
				}
			}
		}
	})
	vals := objs{1, "a", nil, 'r', int64(1), 1.5, true, p.Ast{Type: p.AstType_Int, Value: int64(1)}, p.AstSlice{{}}}
	n, ch := 1, make(chan int)
	vals = append(objs{int8(1), int16(2), int32(3), uint(4), uint8(5), uint16(6), uint32(7), uint64(8), uintptr(9), float32(1.5), complex(1, 2), false, "", "x\xff", 'é', myInt25(1), myString25("s"), myStruct25{1, "a"}, &n, (*int)(nil), ch, p.AstType_Int, p.AstCons{}, &p.Ast{}, errBack23, [2]int{1, 2}}, vals[:len(vals)-1]...)
	uncomparable := objs{p.AstSlice{{}}, []interface{}{1}, []byte("ab"), []rune("ab"), []string{"a"}, map[string]int{"a": 1}, func() {}, p.AstSlice(nil), struct{ L []int }{}, interface{}(nil), p.Ast{Type: p.AstType_Bool, Value: true}}
	nc := len(vals)
	vals = append(vals, uncomparable...)
	lists17 := p.AstSlice{{}, {Type: p.AstType_Int, Value: int64(1)}}
	for len(lists17) <= len(vals) {
		lists17 = append(lists17, p.Ast{Type: p.AstType_String, Value: "q"})
	}
	ofs := map[string]p.ParserFn{"Any": obj.Any(), "Seq": obj.Seq(1, "a"), "Seq0": obj.Seq(), "ObjClass": obj.ObjClass(1, "a", nil, 'r', int64(1), 1.5, true), "ObjClassN": obj.ObjClassN("zz"), "ObjClassFn": obj.ObjClassFn(func(interface{}) bool { return true }), "End": obj.End(), "ToSlice": p.Trans(p.OneOrMoreTimes(obj.ObjClassFn(func(c interface{}) bool { return c != true })), p.ToSlice)}
	r.One("objects", func(w *kit.W) {
		for name, fn := range ofs {
			for pos := 0; pos <= len(vals); pos++ {
				if name == "ObjClass" || name == "ObjClassN" || name == "Seq" {
					if pos >= nc {
						continue // not comparable
					}
				}
				w.Descf("%s at %d", name, pos)
				for _, src := range []p.SliceLike{vals, lists17} {
					if _, ok := src.(p.AstSlice); ok && (name == "ObjClass" || name == "ObjClassN" || name == "Seq" || name == "ToSlice") {
						continue
					}
					ctx := p.ParserContext{Slice: src}
					ctx.Position = pos
					out, err := fn(ctx)
					w.Eval()
					w.States(1)
					if err != nil {
						w.Fail("%v", err)
						return
					}
					if d := tagsOK(out.AstStack); d != "" {
						w.Fail("%s: %s", d, dump(out.AstStack))
						return
					}
					w.Nontrivial()
				}
			}
		}
	})
	// numbers of every magnitude and spelling
	var nums []string
	for _, sign := range []string{"", "-", "+"} {
		for e := uint(0); e <= 64; e++ {
			for d := int64(-1); d <= 1; d++ {
				n := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
				for _, radix := range []int{2, 8, 10, 16, 36} {
					nums = append(nums, sign+n.Text(radix))
				}
			}
		}
		for e := 0; e <= 400; e += 1 + e/40*7 {
			nums = append(nums, sign+"1e"+fmt.Sprint(e), sign+"1e-"+fmt.Sprint(e), sign+"25E"+fmt.Sprint(e), sign+"1"+strings.Repeat("0", e%40)+".0", sign+"."+strings.Repeat("0", e%40)+"5")
		}
		for _, t := range []string{"0", "00", "0.5", "1.5", "0x10", "0xff", "0xFFFF", "0b101", "0o17", "017", "inf", "Inf", "nan", "NaN", "Infinity", "0x1p4", "0x1.8p-3", "7f", "fF", "zz", "01", "0001", "00000001", "1_000", ""} {
			nums = append(nums, sign+t)
		}
	}
	for a := 0; a < 256; a++ {
		nums = append(nums, fmt.Sprintf("%02x", a), fmt.Sprintf("%02X", a), fmt.Sprintf("%04x", a*257), fmt.Sprintf("%08b", a))
	}
	conv := []struct {
		name string
		tr   p.TransformerFn
		tag  p.AstType
	}{{"ParseInt", str.ParseInt, p.AstType_Int}, {"ParseUint", str.ParseUint, p.AstType_Uint}, {"ParseFloat", str.ParseFloat, p.AstType_Float}}
	for radix := 0; radix <= 36; radix++ {
		if radix != 1 {
			conv = append(conv, struct {
				name string
				tr   p.TransformerFn
				tag  p.AstType
			}{fmt.Sprintf("ParseIntRadix(%d)", radix), str.ParseIntRadix(radix), p.AstType_Int}, struct {
				name string
				tr   p.TransformerFn
				tag  p.AstType
			}{fmt.Sprintf("ParseUintRadix(%d)", radix), str.ParseUintRadix(radix), p.AstType_Uint})
		}
	}
	r.Sub("numbers", len(conv), func(w *kit.W, i int) {
		c := conv[i]
		for _, t := range nums {
			w.Descf("%s of %q", c.name, t)
			out, err := c.tr(p.ParserContext{}, p.AstSlice{{Type: p.AstType_String, Value: t}})
			w.Eval()
			if err != nil {
				continue
			}
			if len(out) != 1 || out[0].Type != c.tag {
				w.Fail("%s", dump(out))
				return
			}
			if check(w, out); w.Failed() {
				return
			}
		}
		w.States(1)
	})
	r.Sub("characters", 0x110000/512, func(w *kit.W, i int) {
		for c := i * 512; c < (i+1)*512; c++ {
			for _, s := range []struct {
				name string
				tr   p.TransformerFn
				in   p.Ast
			}{{"RuneFromInt", str.RuneFromInt, p.Ast{Type: p.AstType_Int, Value: int64(c)}}, {"StringFromInt", str.StringFromInt, p.Ast{Type: p.AstType_Int, Value: int64(c)}},
				{"IntFromRune", str.IntFromRune, p.Ast{Type: p.AstType_Rune, Value: rune(c)}}, {"StringFromRune", str.StringFromRune, p.Ast{Type: p.AstType_Rune, Value: rune(c)}}} {
				w.Descf("%s of %#x", s.name, c)
				out, err := s.tr(p.ParserContext{}, p.AstSlice{s.in})
				w.Eval()
				if err != nil {
					continue
				}
				if d := tagsOK(out); d != "" {
					w.Fail("%s", d)
					return
				}
				w.Nontrivial()
			}
		}
		w.States(1)
	})
	// chains of transformers
	lists := []p.AstSlice{nil,
		{{Type: p.AstType_String, Value: "12"}}, {{Type: p.AstType_String, Value: " a "}}, {{Type: p.AstType_String, Value: "1"}, {Type: p.AstType_String, Value: "2"}}, {{Type: p.AstType_Int, Value: int64(65)}}, {{Type: p.AstType_Int, Value: int64(-5)}}, {{Type: p.AstType_Int, Value: int64(1) << 40}}, {{Type: p.AstType_Rune, Value: 'x'}}, {{Type: p.AstType_Rune, Value: 'x'}, {Type: p.AstType_String, Value: "s"}},
		{{Type: p.AstType_Any, Value: nil}}, {{Type: p.AstType_String, Value: "2020-01-02"}}, {{Type: p.AstType_String, Value: "1e3"}}, {{Type: p.AstType_Uint, Value: uint64(7)}, {Type: p.AstType_Float, Value: 2.5}, {Type: p.AstType_Bool, Value: true}}, {{Type: p.AstType_AstCons, Value: p.AstCons{}}, {Type: p.AstType_ListOfAst, Value: p.AstSlice{{}}}},
	}
	type named struct {
		name string
		tr   p.TransformerFn
	}
	trs := []named{{"Concat", str.Concat}, {"Trim", str.Trim}, {"TrimStart", str.TrimStart}, {"TrimEnd", str.TrimEnd}, {"ParseInt", str.ParseInt}, {"ParseIntRadix16", str.ParseIntRadix(16)}, {"ParseUint", str.ParseUint}, {"ParseUintRadix8", str.ParseUintRadix(8)}, {"ParseFloat", str.ParseFloat},
		{"RuneFromInt", str.RuneFromInt}, {"IntFromRune", str.IntFromRune}, {"StringFromInt", str.StringFromInt}, {"StringFromRune", str.StringFromRune}, {"ToSlice", p.ToSlice}, {"Grouping", p.GroupingTransform}, {"Erase", p.Erase}, {"Pop", p.Pop}, {"Exchange", p.Exchange}, {"Roll1", p.Roll(1)}, {"Roll-1", p.Roll(-1)},
		{"Push int", p.Push(p.Ast{Type: p.AstType_Int, Value: int64(66)})}, {"Prepend rune", p.Prepend(p.Ast{Type: p.AstType_Rune, Value: 'p'})}, {"Push str", p.Push(p.Ast{Type: p.AstType_String, Value: "7"})}, {"SetOpCode", p.SetOpCode(1)}, {"ChangeClassName", p.ChangeClassName("c")}, {"SetOpCodeAndClassName", p.SetOpCodeAndClassName(2, "d")}, {"SetValue uint", p.SetValue(p.AstType_Uint, uint64(3))}, {"SetValue nil", p.SetValue(p.AstType_Nil, nil)}, {"SetValue str", p.SetValue(p.AstType_String, "9")},
		{"ParseDate", extra.ParseDate}, {"ParseTime", extra.ParseTime}, {"ParseDateTime", extra.ParseDateTime}}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	total, pw := 0, 1
	for d := 1; d <= depth; d++ {
		pw *= len(trs)
		total += pw
	}
	r.Sub("chains", total, func(w *kit.W, i int) {
		d, pw := 1, len(trs)
		for i >= pw {
			i -= pw
			pw *= len(trs)
			d++
		}
		var chain []named
		for k := 0; k < d; k++ {
			chain = append(chain, trs[i%len(trs)])
			i /= len(trs)
		}
		for _, start := range lists {
			w.Desc(func() string {
				s := dump(start) + ":"
				for _, c := range chain {
					s += " " + c.name
				}
				return s
			})
			l := append(p.AstSlice{}, start...)
			for k, c := range chain {
				var err error
				var out p.AstSlice
				if try(func() { out, err = c.tr(p.ParserContext{Slice: objs{}}, l) }) != "" {
					w.Skip() // this converter does not apply to such entries
					break
				}
				w.Eval()
				w.Transitions(1)
				if err != nil {
					break
				}
				l = out
				if k == d-1 {
					if check(w, l); w.Failed() {
						return
					}
				}
			}
		}
		w.States(1)
	})
}
