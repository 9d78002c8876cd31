package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C35", Level: "model_checking",
		Bounds: "all terms of up to 4 (thorough 5) nodes over 30 constructs and up to 6 (7) over 10, on string and on object contexts, with probes, transformers and custom parsers that change the tag and succeed or fail; every chain of up to 2 transformers between two probes; production rule sets with nested rules, in both directions; every parser constructor with a probe behind it; nesting up to 2000; 14 kinds of tags and sources",
		Assumptions: []string{
			"transformers see the context their construct began with",
			"a rule's source is the list of entries",
		},
		Run: run35,
	})
}

// leaf35 makes a leaf from a custom parser and its reference.
func leaf35(name string, run func(e *peg.Env, ctx p.ParserContext) (p.ParserContext, bool), eval func(m *peg.M, s peg.S) (peg.S, bool)) *peg.Op {
	return &peg.Op{Name: name, Class: name,
		Build: func(e *peg.Env, _ []p.ParserFn) p.ParserFn {
			return p.LightBaseParser(name, func(ctx p.ParserContext) (p.ParserContext, error) {
				out, ok := run(e, ctx)
				out.MatchStatus = p.MatchStatus_Unmatched
				if ok {
					out.MatchStatus = p.MatchStatus_Matched
				}
				return out, nil
			})
		},
		Eval: func(m *peg.M, n *peg.Node, s peg.S) (peg.Status, peg.S) {
			o, ok := eval(m, s)
			if !ok {
				return peg.No, s
			}
			return peg.OK, o
		}}
}

// src35 is the text of a context's source, whatever its kind.
func src35(ctx p.ParserContext) string {
	if l, ok := ctx.Slice.(objs); ok {
		t := ""
		for _, x := range l {
			t += x.(string)
		}
		return t + ctx.Str
	}
	return ctx.Str
}

func see35() *peg.Op {
	return leaf35("see", func(e *peg.Env, ctx p.ParserContext) (p.ParserContext, bool) {
		e.Seen = append(e.Seen, fmt.Sprintf("p:%v@%d %q", ctx.Tag, ctx.Position, src35(ctx)))
		return ctx, true
	}, func(m *peg.M, s peg.S) (peg.S, bool) {
		m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("p:%v@%d %q", s.Tag, s.Pos, m.Src))
		return s, true
	})
}

// step35 reads the character c, notes the tag, and makes the next tag.
func step35(c string) *peg.Op {
	return leaf35("tag+"+c, func(e *peg.Env, ctx p.ParserContext) (p.ParserContext, bool) {
		e.Seen = append(e.Seen, fmt.Sprintf("s:%v", ctx.Tag))
		if !strings.HasPrefix(src35(ctx)[ctx.Position:], c) {
			return ctx, false
		}
		ctx.Position++
		ctx.Tag = ctx.Tag.(int)*3%1000 + 1
		return ctx, true
	}, func(m *peg.M, s peg.S) (peg.S, bool) {
		m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("s:%v", s.Tag))
		if !strings.HasPrefix(m.Src[s.Pos:], c) {
			return s, false
		}
		s.Pos++
		s.Tag = s.Tag*3%1000 + 1
		return s, true
	})
}

// spoil35 changes everything and then reports a mismatch.
func spoil35() *peg.Op {
	return leaf35("spoil", func(e *peg.Env, ctx p.ParserContext) (p.ParserContext, bool) {
		ctx.Tag = -1
		ctx.Position = len(src35(ctx))
		ctx.Str, ctx.Slice = "spoilt", nil
		ctx.AstStack = append(ctx.AstStack, p.Ast{})
		return ctx, false
	}, func(m *peg.M, s peg.S) (peg.S, bool) { return s, false })
}

// bump35 changes the tag and reads nothing.
func bump35() *peg.Op {
	return leaf35("bump", func(e *peg.Env, ctx p.ParserContext) (p.ParserContext, bool) {
		ctx.Tag = ctx.Tag.(int)*5%1000 + 2
		return ctx, true
	}, func(m *peg.M, s peg.S) (peg.S, bool) {
		s.Tag = s.Tag*5%1000 + 2
		return s, true
	})
}

// hook35 is a custom construct made with BaseParser: its function notes and changes the
// tag after every round of its body and at the end.
func hook35(min, max int) *peg.Op {
	return &peg.Op{Name: fmt.Sprintf("hook{%d,%d}", min, max), Arity: 1, Class: "hook",
		Build: func(e *peg.Env, k []p.ParserFn) p.ParserFn {
			return p.BaseParser("hook", func(n, bottom int, ctx p.ParserContext) (p.ParserContext, error) {
				e.Seen = append(e.Seen, fmt.Sprintf("h%d:%v@%d %q", n, ctx.Tag, ctx.Position, src35(ctx)))
				ctx.Tag = ctx.Tag.(int)*7%1000 + 3
				return ctx, nil
			}, []interface{}{p.Times{Min: min, Max: max}}, k, nil)
		},
		Eval: func(m *peg.M, n *peg.Node, s peg.S) (peg.Status, peg.S) {
			see := func(k int, s peg.S) peg.S {
				m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("h%d:%v@%d %q", k, s.Tag, s.Pos, m.Src))
				s.Tag = s.Tag*7%1000 + 3
				return s
			}
			o, count := s, 0
			for ; count < max; count++ {
				st, q := m.Run(n.Kids[0], o)
				if st == peg.Err {
					return st, q
				}
				if st == peg.No {
					break
				}
				o = see(1, q)
			}
			if count < min {
				return peg.No, s
			}
			return peg.OK, see(-1, o)
		}}
}

// probe35 records the tag and source a transformer is given.
func probe35() *peg.Op {
	op := *peg.Probe()
	op.Name = "probe"
	op.Build = func(e *peg.Env, k []p.ParserFn) p.ParserFn {
		return p.Trans(k[0], p.Erase, func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
			e.Seen = append(e.Seen, fmt.Sprintf("t:%v@%d %q", ctx.Tag, ctx.Position, src35(ctx)))
			ctx.Tag = -7 // the transformer's own copy
			ctx.Str, ctx.Slice = "", nil
			return asts, nil
		})
	}
	op.Eval = func(m *peg.M, n *peg.Node, s peg.S) (peg.Status, peg.S) {
		st, o := m.Run(n.Kids[0], s)
		if st != peg.OK {
			return st, o
		}
		m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("t:%v@%d %q", s.Tag, s.Pos, m.Src))
		o.List, o.Low = s.List, s.Low
		return peg.OK, o
	}
	return &op
}

// lib35 are leaves of the library itself, without output.
func lib35(object bool) []*peg.Op {
	quiet := func(name string, mk func() p.ParserFn, f func(rest string) bool, n int) *peg.Op {
		return &peg.Op{Name: name, Class: name,
			Build: func(*peg.Env, []p.ParserFn) p.ParserFn { return p.Trans(mk(), p.Erase) },
			Eval: func(m *peg.M, _ *peg.Node, s peg.S) (peg.Status, peg.S) {
				if !f(m.Src[s.Pos:]) {
					return peg.No, s
				}
				s.Pos += n
				return peg.OK, s
			}}
	}
	is := func(c string) func(string) bool { return func(r string) bool { return strings.HasPrefix(r, c) } }
	some := func(r string) bool { return r != "" }
	none := func(r string) bool { return r == "" }
	if object {
		return []*peg.Op{
			quiet("obj.Seq(a)", func() p.ParserFn { return obj.Seq("a") }, is("a"), 1),
			quiet("obj.Any", obj.Any, some, 1),
			quiet("obj.Class(b)", func() p.ParserFn { return obj.ObjClass("b") }, is("b"), 1),
			quiet("obj.End", obj.End, none, 0),
		}
	}
	return []*peg.Op{
		quiet("Seq(a)", func() p.ParserFn { return str.Seq("a") }, is("a"), 1),
		quiet("Any", str.Any, some, 1),
		quiet("Class(b)", func() p.ParserFn { return str.CharClass("b") }, is("b"), 1),
		quiet("End", str.End, none, 0),
	}
}

func ops35(object bool) []*peg.Op {
	return append(lib35(object), see35(), step35("a"), step35("b"), spoil35(), bump35(), peg.Start(),
		probe35(), hook35(0, 2), hook35(1, 1), peg.Star(1), peg.Opt(1), peg.Rep(1, 2, 3), peg.Plus(1), peg.Group(1), peg.Ahead(1, false), peg.Ahead(1, true),
		peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 2, true), peg.Lazy(), peg.Erased(),
		peg.Flat(2), peg.First(2), peg.Star(2), peg.Cond(true), peg.Flat(3), peg.First(3))
}

func core35(object bool) []*peg.Op {
	return append(lib35(object)[:1], see35(), step35("a"), spoil35(), bump35(), probe35(), peg.Star(1), peg.Ahead(1, true), peg.Flat(2), peg.First(2))
}

func objSrc35(s string) objs {
	l := objs{}
	for _, c := range s {
		l = append(l, string(c))
	}
	return l
}

type ptr35 struct{ n int }

// str35 prints itself as something else.
type str35 string

func (str35) String() string { return "printed" }

func tags35() []interface{} {
	f := func() {}
	return []interface{}{nil, 0, 7, "", "tag", true, 1.5, &ptr35{1}, ptr35{2}, []int{1}, map[string]int{"a": 1}, f, p.ParserContext{Str: "x"}, []interface{}{nil}, (*ptr35)(nil),
		func() interface{} { return 1 }, func() string { return "s" }, func(p.ParserContext) interface{} { return nil }, p.Zero(), p.Erase, p.Ast{Value: "x"}, &p.Ast{}, p.AstSlice{{}}, p.AstCons{}, objs{1}, &p.ParserContext{},
		errors.New("tag"), fmt.Errorf("no %w", errors.New("tag")), make(chan int), reflect.ValueOf(1), [2]int{1, 2}, [3][]int{}, 'r', int64(-1), uint64(math.MaxUint64), float32(1), complex(1, 2), []byte("x"), false, new(interface{}), str35("s"), struct{}{}, reflect.TypeOf(0), p.MatchStatus_Error}
}

// same35 compares two values by identity where they have one.
func same35(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() != vb.IsValid() || va.IsValid() && va.Type() != vb.Type() {
		return false
	}
	if !va.IsValid() {
		return true
	}
	switch va.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Chan:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func run35(r *kit.Run) {
	a, b := 4, 6
	if r.Thorough {
		a, b = 5, 7
	}
	onObjs := func(v Variant, src string, pos int) p.ParserContext {
		ctx := v.Context("", pos, 5)
		c := *obj.NewObjectParserContextWithTag(objSrc35(src), 5)
		ctx.Slice = c.Slice
		return ctx
	}
	for k, object := range []bool{false, true} {
		name, x := []string{"string", "object"}[k], Explore{Inputs: words(3, "a", "b"), Variants: vAll, Rotate: true}
		if object {
			x.Ctx = onObjs
			x.Extra = func(w *kit.W, n *peg.Node, src string, in, out p.ParserContext, err error, want peg.Result) {
				if want.St == peg.OK && !reflect.DeepEqual(out.Slice, p.SliceLike(objSrc35(src))) {
					w.Fail("source changed to %v", out.Slice)
				}
			}
		}
		x.Space = peg.NewSpace(a, ops35(object)...)
		Terms(r, name+"-all", x)
		x.Space = peg.NewSpace(b, core35(object)...)
		x.Inputs = []string{"", "a", "aa", "ab"}
		Terms(r, name+"-core", x)
	}
	constructors35(r)
	reach35(r)
	traced35(r)
	rules35(r)
	deep35(r)
}

// constructors35 looks at what the constructors make.
func constructors35(r *kit.Run) {
	tags := tags35()
	strs := []string{"", "a", "a\x00b\xff", strings.Repeat("xyz", 1000)}
	slices := []p.SliceLike{objs{}, objs{"a", 1, nil}, p.AstSlice{}, p.AstSlice{{Value: "x"}}, nil}
	r.Sub("constructors", len(tags)*(len(strs)+len(slices))*2, func(w *kit.W, i int) {
		withTag := i%2 == 1
		i /= 2
		tag := tags[i%len(tags)]
		k := i / len(tags)
		mk := func() *p.ParserContext {
			if k < len(strs) {
				if withTag {
					return str.NewStringParserContextWithTag(strs[k], tag)
				}
				return str.NewStringParserContext(strs[k])
			}
			if withTag {
				return obj.NewObjectParserContextWithTag(slices[k-len(strs)], tag)
			}
			return obj.NewObjectParserContext(slices[k-len(strs)])
		}
		w.Descf("source %d, tag %T (given: %v)", k, tag, withTag)
		x, y := mk(), mk()
		w.Eval()
		w.States(1)
		w.Transitions(1)
		for _, c := range []*p.ParserContext{x, y} {
			if c.Position != 0 || c.Length != 0 || len(c.AstStack) != 0 || c.Quantity != 0 || c.MatchStatus != p.MatchStatus_Matched && c.MatchStatus != 0 {
				w.Fail("a new context is not fresh: %+v", c)
				return
			}
			want := tag
			if !withTag {
				want = nil
			}
			if !same35(c.Tag, want) {
				w.Fail("tag %#v, want %#v", c.Tag, want)
				return
			}
			if k < len(strs) && (c.Str != strs[k] || c.Slice != nil) {
				w.Fail("source %q %v", clip26(c.Str), c.Slice)
				return
			}
			if k >= len(strs) && (c.Str != "" || !reflect.DeepEqual(c.Slice, slices[k-len(strs)])) {
				w.Fail("source %q %v", c.Str, c.Slice)
				return
			}
		}
		if x == y {
			w.Fail("two contexts are one")
			return
		}
		for _, n := range []int{1, 1024, 1025} {
			x, y := mk(), mk()
			for j := 0; j < n; j++ {
				x.AstStack = append(x.AstStack, p.Ast{ClassName: "x", Value: j})
				y.AstStack = append(y.AstStack, p.Ast{ClassName: "y", Value: -j})
			}
			for j := 0; j < n; j++ {
				if x.AstStack[j].ClassName != "x" || x.AstStack[j].Value != j || y.AstStack[j].ClassName != "y" || y.AstStack[j].Value != -j {
					w.Fail("entry %d pushed in one context appears in another", j)
					return
				}
			}
			x.Position, x.Tag = 3, "other"
			if z := mk(); z.Position != 0 || len(z.AstStack) != 0 || withTag && !same35(z.Tag, tag) {
				w.Fail("a later context is not fresh: %+v", z)
				return
			}
		}
		w.SeeStr(fmt.Sprint(i))
	})
}

// reach35 puts probes before, behind and inside every parser and transformer of the library, with every kind of tag.
func reach35(r *kit.Run) {
	tags := tags35()
	var trs []tr14
	for _, t := range transformers14() {
		if t.err == "" {
			trs = append(trs, t)
		}
	}
	type con35 struct {
		name string
		mk   func(k p.ParserFn) p.ParserFn
	}
	item := p.Ast{ClassName: "item", Type: p.AstType_String, Value: "s"}
	cons := []con35{
		{"FlatGroup", func(k p.ParserFn) p.ParserFn { return p.FlatGroup(k) }},
		{"Group", func(k p.ParserFn) p.ParserFn { return p.Group(k) }},
		{"First", func(k p.ParserFn) p.ParserFn { return p.First(p.Unmatched(), k) }},
		{"LookAhead", func(k p.ParserFn) p.ParserFn { return p.LookAhead(k) }},
		{"LookAheadN", func(k p.ParserFn) p.ParserFn { return p.LookAheadN(k, p.Unmatched()) }},
		{"LookBehind", func(k p.ParserFn) p.ParserFn { return p.LookBehind(0, 0, k) }},
		{"LookBehind 1", func(k p.ParserFn) p.ParserFn { return p.FlatGroup(str.Any(), p.LookBehind(1, 1, k, str.Any())) }},
		{"LookBehindN", func(k p.ParserFn) p.ParserFn { return p.LookBehindN(0, 0, k, p.Unmatched()) }},
		{"Repeat", func(k p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: 2, Max: 2}, k) }},
		{"Once", func(k p.ParserFn) p.ParserFn { return p.Once(k) }},
		{"ZeroOrOnce", func(k p.ParserFn) p.ParserFn { return p.ZeroOrOnce(k) }},
		{"ZeroOrMoreTimes", func(k p.ParserFn) p.ParserFn { return p.ZeroOrMoreTimes(k, str.Any()) }},
		{"OneOrMoreTimes", func(k p.ParserFn) p.ParserFn { return p.OneOrMoreTimes(str.Any(), k) }},
		{"If", func(k p.ParserFn) p.ParserFn { return p.If(true, k, p.Unmatched()) }},
		{"If not", func(k p.ParserFn) p.ParserFn { return p.If(false, p.Unmatched(), k) }},
		{"Indirect", func(k p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return k }) }},
		{"after Zero", func(k p.ParserFn) p.ParserFn { return p.FlatGroup(p.Zero(item, item), k) }},
		{"after Start", func(k p.ParserFn) p.ParserFn { return p.FlatGroup(p.Start(), k) }},
		{"after Match", func(k p.ParserFn) p.ParserFn {
			return p.FlatGroup(p.Zero(item), p.Match(1)(p.Case{If: p.TopIsStr("s"), Let: []p.TransformerFn{p.Push(item)}}), k)
		}},
		{"after failed option", func(k p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(k, p.Unmatched()), k) }},
		{"BaseParser", func(k p.ParserFn) p.ParserFn {
			return p.BaseParser("custom", func(_, _ int, ctx p.ParserContext) (p.ParserContext, error) { return k(ctx) }, nil, nil, nil)
		}},
		{"LightBaseParser", func(k p.ParserFn) p.ParserFn {
			return p.LightBaseParser("custom", func(ctx p.ParserContext) (p.ParserContext, error) { return k(ctx) })
		}},
		{"after all string parsers", func(k p.ParserFn) p.ParserFn {
			return p.FlatGroup(p.LookAhead(str.Seq("a")), p.LookAhead(str.SeqI("A")), p.LookAhead(str.CharRange(p.RuneRange{Start: 'a', End: 'b'})), p.LookAhead(str.CharClass("a")), p.LookAhead(str.CharClassN("b")),
				p.LookAhead(str.CharClassFn(func(rune) bool { return true })), p.LookAhead(str.Alpha()), p.LookAhead(str.Alnum()), p.LookAhead(str.HexNumber()), str.WordBoundary(), k, str.Any(), k, str.Any(), k, str.End(), k)
		}},
	}
	r.Sub("reach", len(tags)*len(cons)*(len(cons)+1), func(w *kit.W, i int) {
		tag := tags[i%len(tags)]
		i /= len(tags)
		c1 := cons[i%len(cons)]
		src := "ab"
		seen := 0
		bad := ""
		see := func(who string, ctx p.ParserContext) {
			seen++
			if !same35(ctx.Tag, tag) {
				bad = fmt.Sprintf("%s sees tag %#v", who, ctx.Tag)
			}
			if ctx.Str != src {
				bad = fmt.Sprintf("%s sees source %q", who, ctx.Str)
			}
		}
		probe := p.Trans(p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
			see("a parser", ctx)
			ctx.MatchStatus = p.MatchStatus_Matched
			return ctx, nil
		}), func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
			see("a transformer", ctx)
			return asts, nil
		})
		name := c1.name
		fn := c1.mk(probe)
		if k := i / len(cons); k > 0 {
			c2 := cons[k-1]
			name += " in " + c2.name
			fn = p.FlatGroup(p.ZeroOrOnce(c2.mk(fn)))
		}
		w.Descf("%s with tag %T", name, tag)
		for _, start := range []p.ParserContext{*str.NewStringParserContextWithTag(src, tag), {Str: src, Tag: tag, MatchStatus: p.MatchStatus_Unmatched, AstStack: p.AstSlice{item}}} {
			out, err := fn(start)
			w.Eval()
			w.States(1)
			w.Transitions(seen)
			if bad != "" {
				w.Fail("%s, want %#v, %q", bad, tag, src)
				return
			}
			if err != nil || out.MatchStatus == p.MatchStatus_Matched && (!same35(out.Tag, tag) || out.Str != src) {
				w.Fail("result: tag %#v, source %q (%v)", out.Tag, out.Str, err)
				return
			}
			if out.MatchStatus != p.MatchStatus_Matched {
				continue
			}
			// and of a parse that ends with an error behind it
			for k, end := range []p.ParserFn{p.Error("stop"), p.Trans(p.Zero(), p.TransformError("stop")), p.First(p.Unmatched(), p.LookAhead(p.Error("stop")))} {
				out, err := p.FlatGroup(p.ZeroOrOnce(str.Any()), fn, end)(start)
				w.Eval()
				if bad != "" || err != nil && (!same35(out.Tag, tag) || out.Str != src) {
					w.Fail("then an error (kind %d): %s; result: tag %#v, source %q (%v)", k, bad, out.Tag, out.Str, err)
					return
				}
			}
		}
		if seen == 0 {
			w.Skip()
		}
		w.See(uint64(seen))
	})
	r.Sub("transformer-chains", len(tags)*len(trs)*len(trs)*3, func(w *kit.W, i int) {
		kind := i % 3
		i /= 3
		tag := tags[i%len(tags)]
		i /= len(tags)
		t1, t2 := trs[i%len(trs)], trs[i/len(trs)]
		w.Descf("%s, %s with tag %T (%d)", t1.name, t2.name, tag, kind)
		bad, seen := "", 0
		see := func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
			seen++
			if !same35(ctx.Tag, tag) || ctx.Str != "ab" {
				bad = fmt.Sprintf("tag %#v, source %q", ctx.Tag, ctx.Str)
			}
			return asts, nil
		}
		chain := []p.TransformerFn{see, t1.tr, see, t2.tr, see}
		body := p.Zero(entry14(1), entry14(2), entry14(3))
		var fn p.ParserFn
		switch kind {
		case 0:
			fn = p.Trans(body, chain...)
		case 1:
			fn = p.FlatGroup(body, p.Match(2)(p.Case{If: p.TopIsAny, Let: chain}))
		case 2:
			fn = p.BaseParser("custom", nil, nil, []p.ParserFn{body}, chain)
		}
		out, err := fn(*str.NewStringParserContextWithTag("ab", tag))
		w.Eval()
		w.States(1)
		w.Transitions(seen)
		if bad != "" || seen != 3 || err != nil || !same35(out.Tag, tag) || out.Str != "ab" {
			w.Fail("%d probes ran; %s; result tag %#v (%v)", seen, bad, out.Tag, err)
		}
		w.See(uint64(len(out.AstStack)))
	})
}

// traced35 runs traced parsers; building them is not meant to be concurrent, so this is one case.
func traced35(r *kit.Run) {
	r.One("traced", func(w *kit.W) {
		for k, tag := range tags35() {
			for depth := 1; depth <= 3; depth++ {
				w.Descf("%d traced scopes, tag %T", depth, tag)
				bad, seen := "", 0
				see := func(who string, ctx *p.ParserContext) {
					seen++
					if !same35(ctx.Tag, tag) || ctx.Str != "ab" {
						bad = fmt.Sprintf("%s sees tag %#v, source %q", who, ctx.Tag, ctx.Str)
					}
				}
				var build func(d int) p.ParserFn
				build = func(d int) p.ParserFn {
					if d == 0 {
						return p.Trans(p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
							see("a parser", &ctx)
							ctx.MatchStatus = p.MatchStatus_Matched
							return ctx, nil
						}), func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
							see("a transformer", &ctx)
							return asts, nil
						})
					}
					return p.DebugTrace("s", trace35(see))(p.FlatGroup(str.Any(), p.LookBehind(1, 1, str.Any()), build(d-1)), p.ZeroOrOnce(spoiler35, p.Unmatched()))
				}
				out, err := build(depth)(*str.NewStringParserContextWithTag("ab", tag))
				w.Eval()
				w.States(1)
				w.Transitions(seen)
				want := p.MatchStatus_Matched
				if depth == 3 {
					want = p.MatchStatus_Unmatched
				}
				if bad != "" || err != nil || out.MatchStatus != want || depth < 3 && !same35(out.Tag, tag) {
					w.Fail("%s; result %v tag %#v (%v), %d", bad, out.MatchStatus, out.Tag, err, k)
					return
				}
			}
		}
	})
}

type trace35 func(who string, ctx *p.ParserContext)

func (t trace35) Before(_ string, _ int, class string, ctx *p.ParserContext) {
	if class != "spoiler" && class != ":base:Unmatched" {
		t("the tracer before "+class, ctx)
	}
}
func (t trace35) After(_ string, _ int, class string, ctx *p.ParserContext, err error) {
	if class != "spoiler" && class != ":base:Unmatched" {
		t("the tracer after "+class, ctx)
	}
}
func (t trace35) Panic(string, int, string, *p.ParserContext, interface{}) {}

// rules35 checks what production rules see: every rule, rule transformer and final check, at up to three levels.
func rules35(r *kit.Run) {
	tags := tags35()
	r.Sub("rules", len(tags)*2*2*2*3*5, func(w *kit.W, i int) {
		tag := tags[i%len(tags)]
		i /= len(tags)
		rtol, onObj, change := i%2 == 1, i/2%2 == 1, i/4%2 == 1
		i /= 8
		levels, n := i%3+1, i/3+1
		w.Descf("%d entries, %d levels, right to left %v, object source %v, tag %T, custom change %v", n, levels, rtol, onObj, tag, change)
		bad, seen := "", 0
		see := func(who string, ctx p.ParserContext) {
			seen++
			if !same35(ctx.Tag, tag) && bad == "" {
				bad = fmt.Sprintf("%s sees tag %#v", who, ctx.Tag)
			}
		}
		var mk func(level int) p.TransformerFn
		mk = func(level int) p.TransformerFn {
			probe := p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
				see(fmt.Sprint("a rule of level ", level), ctx)
				if _, ok := ctx.Slice.(p.AstSlice); !ok {
					bad = fmt.Sprintf("a rule's source is %T", ctx.Slice)
				}
				if change {
					ctx.Tag = "changed by a rule"
				}
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			})
			join := []p.TransformerFn{func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				see(fmt.Sprint("a rule's transformer of level ", level), ctx)
				v := ""
				for _, a := range asts {
					v += a.Value.(p.Ast).Value.(string)
				}
				return p.AstSlice{{ClassName: "joined", Type: p.AstType_String, Value: v}}, nil
			}}
			if level > 1 {
				join = append(join, mk(level-1))
			}
			check := p.FlatGroup(p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
				see(fmt.Sprint("the final check of level ", level), ctx)
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			}), obj.Any(), obj.End())
			return p.ProductionRule([]p.Precedence{
				{Rules: []p.ParserFn{p.FlatGroup(p.LightBaseParser("never", func(ctx p.ParserContext) (p.ParserContext, error) {
					see("an earlier rule", ctx)
					ctx.Tag = "spoilt"
					ctx.MatchStatus = p.MatchStatus_Unmatched
					return ctx, nil
				}))}, Rtol: !rtol},
				{Rules: []p.ParserFn{p.Trans(p.FlatGroup(obj.Any(), obj.Any(), probe), join...)}, Rtol: rtol},
			}, check)
		}
		var leaves []p.Ast
		for k := 0; k < n; k++ {
			leaves = append(leaves, p.Ast{ClassName: "leaf", Type: p.AstType_String, Value: string(rune('a' + k))})
		}
		fn := p.FlatGroup(p.Trans(p.Zero(leaves...), mk(levels), func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
			see("the next transformer", ctx)
			return asts, nil
		}), p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
			see("the next parser", ctx)
			ctx.MatchStatus = p.MatchStatus_Matched
			return ctx, nil
		}))
		ctx := *str.NewStringParserContextWithTag("text", tag)
		if onObj {
			ctx = *obj.NewObjectParserContextWithTag(objs{1, 2}, tag)
		}
		out, err := fn(ctx)
		w.Eval()
		w.States(n)
		w.Transitions(seen)
		switch {
		case bad != "":
			w.Fail("%s, want %#v", bad, tag)
		case err != nil || len(out.AstStack) != 1 || out.AstStack[0].Value != "abcde"[:n]:
			w.Fail("result %s (%v)", peg.Show(out.AstStack), err)
		case !same35(out.Tag, tag) || out.Str != ctx.Str || !reflect.DeepEqual(out.Slice, ctx.Slice):
			w.Fail("result: tag %#v, source %q %v", out.Tag, out.Str, out.Slice)
		}
		w.See(uint64(seen))
	})
}

// deep35 nests constructs deeply around a probe.
func deep35(r *kit.Run) {
	wraps := []func(k p.ParserFn) p.ParserFn{
		func(k p.ParserFn) p.ParserFn { return p.FlatGroup(k) },
		func(k p.ParserFn) p.ParserFn { return p.Group(k) },
		func(k p.ParserFn) p.ParserFn { return p.First(p.Unmatched(), k) },
		func(k p.ParserFn) p.ParserFn { return p.LookAhead(k) },
		func(k p.ParserFn) p.ParserFn { return p.ZeroOrOnce(k) },
		func(k p.ParserFn) p.ParserFn { return p.Trans(k, p.GroupingTransform) },
		func(k p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return k }) },
		func(k p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(spoiler35, p.Unmatched()), k) },
		func(k p.ParserFn) p.ParserFn { return p.First(p.FlatGroup(spoiler35, p.Unmatched()), k) },
	}
	depths := []int{1, 2, 15, 16, 17, 63, 64, 100, 255, 256, 1000, 1024, 2000}
	r.Sub("deep", len(wraps)*len(depths), func(w *kit.W, i int) {
		d := depths[i/len(wraps)]
		w.Descf("wrap %d, depth %d", i%len(wraps), d)
		tag := &ptr35{d}
		bad := "the probe did not run"
		fn := p.LightBaseParser("probe", func(ctx p.ParserContext) (p.ParserContext, error) {
			bad = ""
			if ctx.Tag != tag || ctx.Str != "src" {
				bad = fmt.Sprintf("tag %#v source %q", ctx.Tag, ctx.Str)
			}
			ctx.MatchStatus = p.MatchStatus_Matched
			return ctx, nil
		})
		for k := 0; k < d; k++ {
			fn = wraps[i%len(wraps)](fn)
		}
		out, err := fn(*str.NewStringParserContextWithTag("src", tag))
		w.Eval()
		w.States(d)
		w.Transitions(d)
		if bad != "" || err != nil || out.Tag != tag || out.Str != "src" {
			w.Fail("%s; result tag %v (%v)", bad, out.Tag, err)
		}
		w.See(uint64(d))
	})
}

// spoiler35 changes the tag and matches.
var spoiler35 = p.LightBaseParser("spoiler", func(ctx p.ParserContext) (p.ParserContext, error) {
	ctx.Tag = "spoilt"
	ctx.MatchStatus = p.MatchStatus_Matched
	return ctx, nil
})
