package props

import (
	"fmt"
	"strings"
	"sync"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

// grammar08 is a recursive grammar with a hand-written recogniser.
type grammar08 struct {
	name  string
	alpha []string
	mk    func(count *int) p.ParserFn
	// ref returns the end of the match and the produced entries, or -1
	ref func(s string, pos int) (int, []peg.R)
}

func drop(s string) p.ParserFn { return p.Trans(str.Seq(s), p.Erase) }

func tokR(class, v string, pos int) peg.R {
	return peg.R{Class: class, Type: p.AstType_String, Val: v, Pos: pos, Len: len(v)}
}

func groupR(w []peg.R) peg.R {
	return peg.R{Class: ":base:Group", Type: p.AstType_ListOfAst, Val: w, Pos: peg.Any, Len: peg.Any}
}

func seqR(v string, pos int) peg.R { return tokR(":string:Seq", v, pos) }

func has(s string, pos int, c byte) bool { return pos < len(s) && s[pos] == c }

func grammars08() []grammar08 {
	var gs []grammar08
	// nested lists: V <- a / '(' V* ')'
	var refV func(s string, pos int) (int, []peg.R)
	refV = func(s string, pos int) (int, []peg.R) {
		if has(s, pos, 'a') {
			return pos + 1, []peg.R{seqR("a", pos)}
		}
		if !has(s, pos, '(') {
			return -1, nil
		}
		w := []peg.R{}
		q := pos + 1
		for {
			e, x := refV(s, q)
			if e < 0 {
				break
			}
			w = append(w, x...)
			q = e
		}
		if !has(s, q, ')') {
			return -1, nil
		}
		return q + 1, []peg.R{groupR(w)}
	}
	gs = append(gs, grammar08{"nested lists through a variable", []string{"(", ")", "a"}, func(n *int) p.ParserFn {
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { *n++; return v })
		v = p.First(str.Seq("a"), p.Group(drop("("), p.ZeroOrMoreTimes(r), drop(")")))
		return v
	}, refV})
	gs = append(gs, grammar08{"nested lists through a constructor", []string{"(", ")", "a"}, func(n *int) p.ParserFn {
		var mk func() p.ParserFn
		mk = func() p.ParserFn {
			*n++
			return p.First(str.Seq("a"), p.Group(drop("("), p.ZeroOrMoreTimes(p.Indirect(mk)), drop(")")))
		}
		return p.Indirect(mk)
	}, refV})
	gs = append(gs, grammar08{"nested lists, deferred twice", []string{"(", ")", "a"}, func(n *int) p.ParserFn {
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { *n++; return p.Indirect(func() p.ParserFn { *n++; return v }) })
		v = p.First(str.Seq("a"), p.Group(drop("("), p.ZeroOrMoreTimes(r), drop(")")))
		return r
	}, refV})
	// mutual recursion: E <- a O / '' (even), O <- b E
	var refE, refO func(s string, pos int) (int, []peg.R)
	refE = func(s string, pos int) (int, []peg.R) {
		if has(s, pos, 'a') {
			if e, w := refO(s, pos+1); e >= 0 {
				return e, []peg.R{groupR(append([]peg.R{seqR("a", pos)}, w...))}
			}
		}
		return pos, []peg.R{{Class: "e", Type: p.AstType_String, Val: "", Pos: pos}}
	}
	refO = func(s string, pos int) (int, []peg.R) {
		if !has(s, pos, 'b') {
			return -1, nil
		}
		e, w := refE(s, pos+1)
		return e, append([]peg.R{seqR("b", pos)}, w...)
	}
	gs = append(gs, grammar08{"mutual recursion", []string{"a", "b"}, func(n *int) p.ParserFn {
		var ev, od p.ParserFn
		rE := p.Indirect(func() p.ParserFn { *n++; return ev })
		rO := p.Indirect(func() p.ParserFn { *n++; return od })
		ev = p.First(p.Group(str.Seq("a"), rO), p.Zero(p.Ast{ClassName: "e", Type: p.AstType_String, Value: ""}))
		od = p.FlatGroup(str.Seq("b"), rE)
		return rE
	}, refE})
	// palindromes with a centre: P <- a P a / b P b / c
	var refP func(s string, pos int) (int, []peg.R)
	refP = func(s string, pos int) (int, []peg.R) {
		for _, c := range []byte{'a', 'b'} {
			if has(s, pos, c) {
				if e, w := refP(s, pos+1); e >= 0 && has(s, e, c) {
					x := append([]peg.R{seqR(string(c), pos)}, w...)
					return e + 1, []peg.R{groupR(append(x, seqR(string(c), e)))}
				}
			}
		}
		if has(s, pos, 'c') {
			return pos + 1, []peg.R{seqR("c", pos)}
		}
		return -1, nil
	}
	gs = append(gs, grammar08{"palindromes", []string{"a", "b", "c"}, func(n *int) p.ParserFn {
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { *n++; return v })
		v = p.First(p.Group(str.Seq("a"), r, str.Seq("a")), p.Group(str.Seq("b"), r, str.Seq("b")), str.Seq("c"))
		return r
	}, refP})
	// groups of four members, most of them optional: G <- '(' (G / 'a')? 'b'? ')'
	opt := func(s string, q int, c byte, w []peg.R) (int, []peg.R) {
		if has(s, q, c) {
			return q + 1, append(w, seqR(string(c), q))
		}
		return q, w
	}
	var refG func(s string, pos int) (int, []peg.R)
	refG = func(s string, pos int) (int, []peg.R) {
		if !has(s, pos, '(') {
			return -1, nil
		}
		w, q := []peg.R{}, pos+1
		if e, x := refG(s, q); e >= 0 {
			q, w = e, append(w, x...)
		} else {
			q, w = opt(s, q, 'a', w)
		}
		q, w = opt(s, q, 'b', w)
		if !has(s, q, ')') {
			return -1, nil
		}
		return q + 1, []peg.R{groupR(w)}
	}
	gs = append(gs, grammar08{"groups of four", []string{"(", ")", "a", "b"}, func(n *int) p.ParserFn {
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { *n++; return v })
		v = p.Group(drop("("), p.ZeroOrOnce(p.First(r, str.Seq("a"))), p.ZeroOrOnce(str.Seq("b")), drop(")"))
		return r
	}, refG})
	// PEG a^n b^n with predicate: S <- &(A !b) a+ B-part ; classic a^n b^n c^n
	ab := func(x, y byte) func(s string, pos int) int {
		var f func(s string, pos int) int
		f = func(s string, pos int) int {
			if !has(s, pos, x) {
				return -1
			}
			q := pos + 1
			if e := f(s, q); e >= 0 {
				q = e
			}
			if !has(s, q, y) {
				return -1
			}
			return q + 1
		}
		return f
	}
	fa, fb := ab('a', 'b'), ab('b', 'c')
	gs = append(gs, grammar08{"a^n b^n c^n", []string{"a", "b", "c"}, func(n *int) p.ParserFn {
		var A, B p.ParserFn
		rA := p.Indirect(func() p.ParserFn { *n++; return A })
		rB := p.Indirect(func() p.ParserFn { *n++; return B })
		A = p.FlatGroup(drop("a"), p.ZeroOrOnce(rA), drop("b"))
		B = p.FlatGroup(drop("b"), p.ZeroOrOnce(rB), drop("c"))
		return p.FlatGroup(p.LookAhead(rA, p.LookAheadN(str.Seq("b"))), p.Trans(p.OneOrMoreTimes(str.Seq("a")), p.Erase), rB, p.LookAheadN(str.Any()))
	}, func(s string, pos int) (int, []peg.R) {
		e := fa(s, pos)
		if e < 0 || has(s, e, 'b') {
			return -1, nil
		}
		q := pos
		for has(s, q, 'a') {
			q++
		}
		e = fb(s, q)
		if e < 0 || e != len(s) {
			return -1, nil
		}
		return e, nil
	}})
	return gs
}

func init() {
	kit.Register(&kit.Check{
		ID: "C08", Level: "model_checking",
		Bounds:      "6 recursive grammars (direct, mutual, self-constructing, doubly deferred, with predicates) on all inputs over their alphabets up to 11/13 symbols and every start position; nesting depths 0..200 and up to 32769/100000 with one group per level, through 9 recursion carriers with all entries kept, through 6 right recursions that end at the end of the source, and lists of up to 6000 siblings at every level; a self-reference below every pair of 14 constructs, plain and traced; every term of up to 3/4 nodes with and without deferral; builder invocations counted",
		Assumptions: []string{"grammars are not left-recursive", "nesting is limited by the goroutine stack"},
		Run:         run08,
	})
}

func run08(r *kit.Run) {
	maxLen := 11
	if r.Thorough {
		maxLen = 13
	}
	for _, g := range grammars08() {
		g := g
		in := kit.NewStrings(maxLen, g.alpha...)
		if len(g.alpha) == 2 {
			in = kit.NewStrings(maxLen+4, g.alpha...)
		} else if len(g.alpha) == 4 {
			in = kit.NewStrings(maxLen-2, g.alpha...)
		}
		cnt := 0
		shared := g.mk(&cnt)
		if cnt != 0 {
			r.Violate(g.name, g.name, "the deferred builder ran while the grammar was being constructed")
		}
		run := func(w *kit.W, fn p.ParserFn, src string, pos int) {
			w.Desc(func() string { return fmt.Sprintf("%s on %q at %d", g.name, src, pos) })
			v := vAll[(len(src)+pos)%4]
			e, ents := g.ref(src, pos)
			out, err := fn(v.Context(src, pos, nil))
			w.Eval()
			w.States(1)
			w.Transitions(len(src) + 1)
			want := peg.Result{St: peg.No}
			if e >= 0 {
				want = peg.Result{St: peg.OK, S: peg.S{Pos: e, List: append(append([]peg.R{}, v.State(0, 0).List...), ents...)}}
				w.Nontrivial()
			}
			w.Outcome(func() string { return fmt.Sprint(out.MatchStatus, " ", out.Position) })
			w.See(uint64(e))
			if d := peg.Diff(out, err, want); d != "" {
				w.Fail("%s", d)
			}
		}
		r.Sub(g.name, in.Len(), func(w *kit.W, i int) {
			src := in.At(i)
			run(w, shared, src, 0)
			for pos := 1; pos <= len(src) && pos <= 2; pos++ {
				run(w, shared, src, pos)
			}
		})
		// a fresh grammar for every input: the first use behaves like any other
		small := kit.NewStrings(maxLen-3, g.alpha...)
		r.Sub(g.name+" (first use)", small.Len(), func(w *kit.W, i int) {
			n := 0
			fn := g.mk(&n)
			if n != 0 {
				w.Fail("builder ran during construction")
				return
			}
			run(w, fn, small.At(i), 0)
			first := n
			run(w, fn, small.At(i), 0)
			if strings.Contains(g.name, "variable") && n != first {
				w.Fail("builder ran %d times for the first parse and %d more for the same input", first, n-first)
			}
		})
	}
	// deep nesting
	var depths []int
	for d := 0; d <= 200; d++ {
		depths = append(depths, d)
	}
	depths = append(depths, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000, 10000, 16385, 20000, 32769)
	if r.Thorough {
		depths = append(depths, 65537, 100000)
	}
	kinds := 5
	r.Sub("depth", len(depths)*kinds, func(w *kit.W, i int) {
		d := depths[len(depths)-1-i/kinds]
		kind := i % kinds
		w.Descf("nesting depth %d, kind %d", d, kind)
		n := 0
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { n++; return v })
		src := strings.Repeat("(", d) + "a" + strings.Repeat(")", d)
		wantOK := true
		switch kind {
		case 0, 1, 2:
			v = p.First(str.Seq("a"), p.Group(drop("("), r, drop(")")))
			if kind == 1 {
				src = src[:len(src)-1]
				wantOK = d == 0 // one bracket short
				if d == 0 {
					src = "a"
				}
			} else if kind == 2 {
				src += ")"
			}
		case 3: // mutual
			var u p.ParserFn
			ru := p.Indirect(func() p.ParserFn { n++; return u })
			v = p.First(str.Seq("a"), ru)
			u = p.Group(drop("("), r, drop(")"))
		case 4: // right recursion
			src = strings.Repeat("b", d) + "a"
			v = p.First(str.Seq("a"), p.Group(drop("b"), r))
		}
		if n != 0 {
			w.Fail("builder ran during construction")
			return
		}
		out, err := r(*str.NewStringParserContext(src))
		w.Eval()
		w.States(d + 1)
		w.Transitions(d + 1)
		w.Nontrivial()
		if err != nil || (out.MatchStatus == p.MatchStatus_Matched) != wantOK {
			w.Fail("status %v err %v, want matched=%v", out.MatchStatus, err, wantOK)
			return
		}
		if !wantOK {
			return
		}
		end := len(src)
		if kind == 2 {
			end--
		}
		if out.Position != end || len(out.AstStack) != 1 {
			w.Fail("position %d (want %d), %d entries", out.Position, end, len(out.AstStack))
			return
		}
		a := out.AstStack[0]
		for k := 0; k < d; k++ {
			l, ok := a.Value.(p.AstSlice)
			if !ok || len(l) != 1 || a.Type != p.AstType_ListOfAst {
				w.Fail("level %d is %v %T", k, a.Type, a.Value)
				return
			}
			a = l[0]
		}
		pos := d
		if a.Value != "a" || a.Position != pos {
			w.Fail("innermost entry %v", a)
		}
	})
	flat08(r, depths)
	construction08(r)
	// a deferred parser behaves like the parser its builder returns
	sz := 3
	if r.Thorough {
		sz = 4
	}
	ops := ops02()[:26]
	ops = append(ops, peg.Flat(2), peg.First(2), peg.Error("boom"), peg.End())
	sp := peg.NewSpace(sz, ops...)
	in := words(3, "a", "b")
	r.Sub("deferred-equals-direct", sp.Len(), func(w *kit.W, i int) {
		t := sp.At(i)
		w.Descf("%v direct and deferred", t)
		env := &peg.Env{}
		direct := t.Build(env)
		builds := 0
		deferred := p.Indirect(func() p.ParserFn { builds++; return t.Build(env) })
		if builds != 0 {
			w.Fail("builder ran at once")
			return
		}
		for k, src := range in {
			v := vAll[(i+k)%len(vAll)]
			m := peg.Eval(t, src, v.State(0, 5), &peg.Env{}, true)
			w.States(m.States)
			w.Transitions(m.Steps)
			if m.Skip {
				w.Skip()
				continue
			}
			o1, e1 := direct(v.Context(src, 0, 5))
			o2, e2 := deferred(v.Context(src, 0, 5))
			w.Eval()
			if a, b := showOut(o1, e1)(), showOut(o2, e2)(); a != b && !(o1.MatchStatus == p.MatchStatus_Matched && cut(a) == cut(b)) {
				w.Fail("on %q\n direct   %s\n deferred %s", src, a, b)
				return
			}
			if d := peg.Diff(o2, e2, m); d != "" {
				w.Fail("on %q: %s", src, d)
				return
			}
		}
		if builds > 1 {
			w.Fail("builder ran %d times", builds)
		}
		w.Nontrivial()
	})
	// deferral over object sources and inside production rules
	r.Sub("object-recursion", 200, func(w *kit.W, i int) {
		w.Descf("object source nested %d deep", i)
		var src objs
		for k := 0; k < i; k++ {
			src = append(src, "(")
		}
		src = append(src, 1)
		for k := 0; k < i; k++ {
			src = append(src, ")")
		}
		var v p.ParserFn
		r := p.Indirect(func() p.ParserFn { return v })
		v = p.First(obj.ObjClass(1), p.Group(p.Trans(obj.ObjClass("("), p.Erase), r, p.Trans(obj.ObjClass(")"), p.Erase)))
		out, err := p.FlatGroup(v, obj.End())(*obj.NewObjectParserContext(src))
		w.Eval()
		w.States(i)
		w.Transitions(i)
		w.Nontrivial()
		if err != nil || out.MatchStatus != p.MatchStatus_Matched || len(out.AstStack) != 1 {
			w.Fail("status %v err %v", out.MatchStatus, err)
			return
		}
		a := out.AstStack[0]
		for k := 0; k < i; k++ {
			a = a.Value.(p.AstSlice)[0]
		}
		if a.Value != 1 {
			w.Fail("innermost %v", a)
		}
	})
}

// cut removes the iteration count, which the light wrapper of a deferred parser sets itself.
func cut(s string) string {
	p := strings.Index(s, " q=")
	q := strings.Index(s, " tag=")
	if p < 0 || q < 0 {
		return s
	}
	return s[:p] + s[q:]
}

// flat08 recurses through every construct while the entries of all levels stay on the stack.
func flat08(r *kit.Run, depths []int) {
	type carrier struct {
		name string
		// mk builds "( V? )" around the reference
		mk func(ref p.ParserFn) p.ParserFn
	}
	open, close := func() p.ParserFn { return str.Seq("(") }, func() p.ParserFn { return str.Seq(")") }
	same := func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return a, nil }
	carriers := []carrier{
		{"option", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(open(), p.ZeroOrOnce(x), close()) }},
		{"zero or more", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(open(), p.ZeroOrMoreTimes(x), close()) }},
		{"choice with nothing", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(open(), p.First(x, p.Zero()), close()) }},
		{"choice of alternatives", func(x p.ParserFn) p.ParserFn {
			return p.First(p.FlatGroup(open(), close()), p.FlatGroup(open(), x, close()))
		}},
		{"predicate first", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(open(), p.First(p.FlatGroup(p.LookAhead(str.Seq("(")), x), p.LookAheadN(str.Seq("("))), close())
		}},
		{"transformer", func(x p.ParserFn) p.ParserFn {
			return p.Trans(p.FlatGroup(open(), p.Repeat(p.Times{Min: 0, Max: 1}, x), close()), same)
		}},
		{"concatenated", func(x p.ParserFn) p.ParserFn {
			return p.Trans(p.FlatGroup(open(), p.ZeroOrOnce(x), close()), str.Concat)
		}},
		{"deferred thrice", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(open(), p.ZeroOrOnce(p.Indirect(func() p.ParserFn { return p.Indirect(func() p.ParserFn { return x }) })), close())
		}},
		{"look-behind", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(open(), p.LookBehind(1, 1, str.Seq("(")), p.ZeroOrOnce(x), close(), p.LookBehindN(1, 1, str.Seq("(")))
		}},
	}
	// recursions whose innermost level is at the end of the source
	ends := []struct {
		name string
		mk   func(ref p.ParserFn) p.ParserFn
	}{
		{"last in a choice", func(x p.ParserFn) p.ParserFn { return p.First(p.FlatGroup(open(), x), str.End()) }},
		{"first in a choice", func(x p.ParserFn) p.ParserFn { return p.First(str.End(), p.FlatGroup(open(), x)) }},
		{"option", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(open(), p.ZeroOrOnce(x)) }},
		{"negative look-ahead", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(open(), p.First(x, p.LookAheadN(str.Any()))) }},
		{"empty rest", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(p.ZeroOrMoreTimes(open(), str.Seq("!")), p.First(p.FlatGroup(open(), x), p.Zero()))
		}},
		{"groups", func(x p.ParserFn) p.ParserFn { return p.First(p.Group(open(), x), p.Group(str.End())) }},
	}
	r.Sub("depth-to-the-end", len(depths)*len(ends), func(w *kit.W, i int) {
		d, c := depths[len(depths)-1-i/len(ends)], ends[i%len(ends)]
		w.Descf("right recursion to depth %d, %s", d, c.name)
		var v p.ParserFn
		ref := p.Indirect(func() p.ParserFn { return v })
		v = c.mk(ref)
		src := strings.Repeat("(", d+1)
		w.States(d)
		w.Transitions(d)
		w.Nontrivial()
		for k, s := range []string{src, src + "x"} {
			out, err := p.FlatGroup(ref, str.End())(*str.NewStringParserContext(s))
			w.Eval()
			if err != nil || (out.MatchStatus == p.MatchStatus_Matched) != (k == 0) || k == 0 && out.Position != len(s) {
				w.Fail("%d characters: status %v, err %v, position %d", len(s), out.MatchStatus, err, out.Position)
				return
			}
			if k == 1 {
				continue
			}
			l, n := out.AstStack, 0
			for len(l) > 0 {
				if x, ok := l[len(l)-1].Value.(p.AstSlice); ok {
					l = append(append(p.AstSlice{}, l[:len(l)-1]...), x...)
					n += len(l) - len(x)
					l = x
					continue
				}
				n += len(l)
				break
			}
			if c.name != "groups" && n != d+1 {
				w.Fail("%d entries, want %d", n, d+1)
			}
		}
	})
	var ds []int
	for i, d := range depths {
		if d <= 40 || i%16 == 0 || d > 200 {
			ds = append(ds, d)
		}
	}
	r.Sub("depth-flat", len(ds)*len(carriers), func(w *kit.W, i int) {
		d, c := ds[len(ds)-1-i/len(carriers)], carriers[i%len(carriers)]
		if c.name == "concatenated" && d > 4096 {
			w.Skip() // the texts of all levels grow quadratically
			return
		}
		w.Descf("nesting depth %d through %s", d, c.name)
		builds := 0
		var v p.ParserFn
		ref := p.Indirect(func() p.ParserFn { builds++; return v })
		v = c.mk(ref)
		if builds != 0 {
			w.Fail("builder ran during construction")
			return
		}
		w.States(d)
		w.Transitions(2 * d)
		w.Nontrivial()
		for _, cut := range []int{0, 1} {
			src := strings.Repeat("(", d+1) + strings.Repeat(")", d+1-cut)
			out, err := p.FlatGroup(ref, str.End())(*str.NewStringParserContext(src))
			w.Eval()
			if cut == 1 {
				if err != nil || out.MatchStatus != p.MatchStatus_Unmatched {
					w.Fail("one bracket short: status %v, err %v", out.MatchStatus, err)
					return
				}
				continue
			}
			if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != len(src) {
				w.Fail("status %v, err %v, position %d", out.MatchStatus, err, out.Position)
				return
			}
			text := ""
			var sb strings.Builder
			for _, a := range out.AstStack {
				if a.Position != sb.Len() {
					w.Fail("entry %v at offset %d", a, sb.Len())
					return
				}
				sb.WriteString(a.Value.(string))
			}
			if text = sb.String(); text != src {
				w.Fail("the entries spell %d characters, want %d", len(text), len(src))
				return
			}
		}
	})
	// wide lists inside deep ones: siblings before and after the nested list, at every level
	var ws []int
	for _, x := range []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 341, 342, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3000, 4095, 4096, 4097, 6000} {
		ws = append(ws, x)
	}
	levels := []int{0, 1, 2, 5, 17}
	r.Sub("wide-and-deep", len(ws)*len(levels), func(w *kit.W, i int) {
		n, d := ws[i%len(ws)], levels[i/len(ws)]
		w.Descf("%d levels with %d siblings on both sides", d, n)
		var v p.ParserFn
		ref := p.Indirect(func() p.ParserFn { return v })
		v = p.First(str.Seq("a"), p.Group(drop("("), p.ZeroOrMoreTimes(ref), drop(")")))
		src := strings.Repeat("("+strings.Repeat("a", n), d) + "()" + strings.Repeat(strings.Repeat("a", n)+")", d)
		out, err := p.FlatGroup(ref, str.End())(*str.NewStringParserContext(src))
		w.Eval()
		w.States(d * n)
		w.Transitions(len(src))
		w.Nontrivial()
		if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != len(src) || len(out.AstStack) != 1 {
			w.Fail("status %v, err %v, position %d, %d entries", out.MatchStatus, err, out.Position, len(out.AstStack))
			return
		}
		l, at := out.AstStack, 0
		for k := 0; k < d; k++ {
			l = l[at].Value.(p.AstSlice)
			at = n
			if len(l) != 2*n+1 {
				w.Fail("level %d has %d entries, want %d", k, len(l), 2*n+1)
				return
			}
			for q, a := range l {
				if q != n && a.Value != "a" {
					w.Fail("level %d entry %d is %v", k, q, a)
					return
				}
			}
		}
		if x, ok := l[at].Value.(p.AstSlice); !ok || len(x) != 0 {
			w.Fail("innermost %v", l[at])
		}
	})
}

type quietTracer struct{}

func (quietTracer) Before(string, int, string, *p.ParserContext)             {}
func (quietTracer) After(string, int, string, *p.ParserContext, error)       {}
func (quietTracer) Panic(string, int, string, *p.ParserContext, interface{}) {}

// construction08 puts a reference to the grammar itself below every pair of constructs, plain and traced:
// building the grammar must not run the builder, and the built grammar must work.
func construction08(r *kit.Run) {
	wraps := []struct {
		name string
		mk   func(x p.ParserFn) p.ParserFn
	}{
		{"nothing", func(x p.ParserFn) p.ParserFn { return x }},
		{"sequence", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(x) }},
		{"group", func(x p.ParserFn) p.ParserFn { return p.Group(x) }},
		{"choice", func(x p.ParserFn) p.ParserFn { return p.First(x, p.Unmatched()) }},
		{"once", func(x p.ParserFn) p.ParserFn { return p.Once(x) }},
		{"one or more", func(x p.ParserFn) p.ParserFn { return p.OneOrMoreTimes(x) }},
		{"repeat", func(x p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: 1, Max: 1}, x) }},
		{"transformer", func(x p.ParserFn) p.ParserFn {
			return p.Trans(x, func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return a, nil })
		}},
		{"look-ahead", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookAhead(x), x) }},
		{"look-behind", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookBehind(0, 0, x), x) }},
		{"deferred", func(x p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return x }) }},
		{"if", func(x p.ParserFn) p.ParserFn { return p.If(true, x, x) }},
		{"base parser", func(x p.ParserFn) p.ParserFn { return p.BaseParser("user", nil, nil, []p.ParserFn{x}, nil) }},
		{"light parser", func(x p.ParserFn) p.ParserFn { return p.LightBaseParser("user", p.LightParserImplFn(x)) }},
	}
	nw := len(wraps)
	var mu sync.Mutex // traced construction is not concurrent
	r.Sub("construction", nw*nw*3, func(w *kit.W, i int) {
		a, b, mode := wraps[i%nw], wraps[i/nw%nw], i/nw/nw
		mu.Lock()
		defer mu.Unlock()
		w.Descf("reference below %s in %s, mode %d (0 plain, 1 traced, 2 traced when built)", a.name, b.name, mode)
		builds := 0
		var mk func() p.ParserFn
		mk = func() p.ParserFn {
			builds++
			if builds > 40 {
				panic("the builder recurses")
			}
			self := b.mk(a.mk(p.Indirect(mk)))
			body := func() p.ParserFn { return p.FlatGroup(drop("("), p.First(str.Seq("a"), self), drop(")")) }
			return body()
		}
		var fn p.ParserFn
		msg := try(func() {
			if mode > 0 {
				tr := p.DebugTrace("t", quietTracer{})
				var k p.ParserFn
				if mode == 1 {
					k = p.Indirect(mk)
				} else {
					k = p.FlatGroup(p.Indirect(func() p.ParserFn { return p.DebugTrace("u", quietTracer{})(p.FlatGroup(p.Indirect(mk))) }))
				}
				fn = tr(k)
			} else {
				fn = p.Indirect(mk)
			}
		})
		if msg != "" || builds != 0 {
			w.Fail("the builder ran %d times during construction %s", builds, msg)
			return
		}
		for d := 1; d <= 4; d++ {
			src := strings.Repeat("(", d) + "a" + strings.Repeat(")", d)
			out, err := p.FlatGroup(fn, str.End())(*str.NewStringParserContext(src))
			w.Eval()
			if err != nil || out.MatchStatus != p.MatchStatus_Matched || len(out.AstStack) != 1 {
				w.Fail("on %q: status %v, err %v, %d entries", src, out.MatchStatus, err, len(out.AstStack))
				return
			}
			out, err = p.FlatGroup(fn, str.End())(*str.NewStringParserContext(src[1:]))
			if err != nil || out.MatchStatus != p.MatchStatus_Unmatched {
				w.Fail("on %q: status %v, err %v", src[1:], out.MatchStatus, err)
				return
			}
		}
		w.States(4)
		w.Transitions(4)
		w.Nontrivial()
	})
}
