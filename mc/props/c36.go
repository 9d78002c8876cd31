package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
	"verif/mc/peg"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C36", Level: "model_checking",
		Bounds: "every combination of 10 repetition bounds, negation, first-match and rewinding x 18 behaviours of the implementation function x 4 lists of transformers, over 0, 1 and 2 (thorough: 3) members from a pool of 9 leaves, on all inputs over {a,b} up to 3/4 symbols after a consumed prefix and followed by the rest; repeated custom parsers of three members from the pool; properties given more than once; custom parsers nested in each other and in every combinator; chains of up to 12 (24) transformers; leaves with every combination of status, error and entries",
		Assumptions: []string{
			"a negated repetition that needs more than one iteration is not generated: which of its iterations count is not defined",
			"unbounded repetitions whose body makes no progress are outside (skipped and counted)",
		},
		Run: run36,
	})
}

func customs() []peg.Custom {
	times := []*[2]int{nil, {0, 1}, {0, -1}, {1, -1}, {2, 2}, {1, 3}, {-1, 1}, {0, 0}, {3, 1}, {1, 2}}
	var w []peg.Custom
	for _, t := range times {
		for b := 0; b < 8; b++ {
			for f := 0; f < peg.NFn; f++ {
				for tr := 0; tr < peg.NTr; tr++ {
					c := peg.Custom{Times: t, Negative: b&1 != 0, Exists: b&2 != 0, Rewind: b&4 != 0, Fn: f, Tr: tr}
					if c.Defined() {
						w = append(w, c)
					}
				}
			}
		}
	}
	return w
}

func run36(r *kit.Run) {
	cs := customs()
	leaf := []*peg.Op{
		peg.Seq("a"), peg.Seq("b"), peg.AnyChar(), peg.Zero("zero"), peg.Zero("zero1", z1), peg.Never(),
		peg.LightOp(peg.Light{Match: "b", Status: p.MatchStatus_Error}),
		peg.LightOp(peg.Light{Match: "a", Status: p.MatchStatus_Unmatched, Push: true, Tag: 3}),
		peg.LightOp(peg.Light{Match: "a", Status: p.MatchStatus_Matched, Push: true, Tag: 2}),
	}
	in, maxK := words(3, "a", "b"), 2
	if r.Thorough {
		in, maxK = words(4, "a", "b"), 3
	}
	wrap := func(n *peg.Node) *peg.Node {
		return peg.N(peg.Flat(3), peg.N(peg.Opt(1), peg.N(peg.Seq("c"))), peg.N(peg.First(2), n, peg.N(peg.Zero("else", strR("else", "e")))), peg.N(peg.Star(1), peg.N(peg.AnyChar())))
	}
	run := func(w *kit.W, n *peg.Node, i int, in []string) {
		n.Number()
		runTerm(w, n, i, Explore{Inputs: in, Variants: vAll, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
	}
	for k := 0; k <= maxK; k++ {
		tuples := 1
		for i := 0; i < k; i++ {
			tuples *= len(leaf)
		}
		src := in
		if k == 3 {
			src = []string{"", "ab", "bab", "caba"}
		} else if k == 2 && !r.Thorough {
			src = []string{"", "a", "b", "ab", "ba", "aab", "bba", "cab", "cb", "aba"}
		} else {
			src = append([]string{"cab", "cb"}, in...)
		}
		r.Sub(fmt.Sprintf("%d-members", k), tuples*len(cs), func(w *kit.W, i int) {
			c := cs[i%len(cs)]
			n := peg.N(peg.CustomOp(c, k, i%3))
			j := i / len(cs)
			for x := 0; x < k; x++ {
				n.Kids = append(n.Kids, peg.N(leaf[j%len(leaf)]))
				j /= len(leaf)
			}
			if i%2 == 0 {
				n = wrap(n)
			}
			run(w, n, i, src)
		})
	}

	// First-match repetitions of three members, zero-width ones among them.
	var many []peg.Custom
	for _, t := range []*[2]int{{0, 5}, {4, 4}, {2, 7}} {
		for _, f := range []int{peg.FnNone, peg.FnPushIter} {
			many = append(many, peg.Custom{Times: t, Exists: true, Fn: f}, peg.Custom{Times: t, Fn: f})
		}
	}
	nl := len(leaf)
	r.Sub("three-members-repeated", len(many)*nl*nl*nl, func(w *kit.W, i int) {
		n := peg.N(peg.CustomOp(many[i%len(many)], 3, i%3))
		j := i / len(many)
		for x := 0; x < 3; x++ {
			n.Kids = append(n.Kids, peg.N(leaf[j%nl]))
			j /= nl
		}
		run(w, n, i, []string{"", "ab", "ba", "aabbab"})
	})
	// Several bounds: the last one given counts.
	var twice [][]interface{}
	var last []peg.Custom
	tm := []p.Times{{Min: 1, Max: 1}, {Min: 2, Max: 2}, {Min: 1, Max: 3}, {Min: 0, Max: -1}, {}}
	for _, a := range tm {
		for _, b := range tm {
			for _, c := range tm {
				for k := 0; k < 7; k++ {
					l := [][]interface{}{{p.Negative{}, a, p.Negative{}, b}, {p.Negative{}, p.Negative{}, p.Negative{}, p.Negative{}, b, c}, {p.Negative{}, p.ThereExists{}, p.Rewind{}, p.Negative{}, p.ThereExists{}, a, p.Rewind{}}, {a, b}, {a, p.ThereExists{}, b, c}, {a, b, p.Rewind{}, c, p.Rewind{}}, {p.ThereExists{}, a, p.ThereExists{}, b}}[(k+3)%7]
					z := b
					switch k {
					case 1, 2, 5:
						z = c
					case 6:
						z = a
					}
					g := peg.Custom{Times: &[2]int{z.Min, z.Max}, Exists: k == 1 || k == 3 || k == 6, Rewind: k == 2 || k == 6, Negative: k > 3}
					if !g.Defined() {
						continue
					}
					twice = append(twice, l)
					last = append(last, g)
				}
			}
		}
	}
	r.Sub("repeated-properties", len(twice), func(w *kit.W, i int) {
		op := *peg.CustomOp(last[i], 1, 0)
		op.Name = fmt.Sprintf("custom%v", twice[i])
		op.Build = func(_ *peg.Env, k []p.ParserFn) p.ParserFn { return p.BaseParser("custom", nil, twice[i], k, nil) }
		for _, l := range leaf[:3] {
			run(w, peg.N(&op, peg.N(l)), i, words(3, "a", "b"))
		}
	})

	transformers36(r)
	// Custom parsers in each other and in the library's own combinators.
	var ops []*peg.Op
	pick := []peg.Custom{
		{Fn: peg.FnPushIter}, {Fn: peg.FnGroupEnd, Times: &[2]int{0, -1}}, {Fn: peg.FnUnmatch1, Times: &[2]int{0, -1}, Exists: true},
		{Fn: peg.FnLog, Negative: true, Rewind: true}, {Fn: peg.FnPushEnd, Times: &[2]int{1, 2}, Tr: peg.TrTwo}, {Fn: peg.FnUnmatchOdd, Times: &[2]int{0, 3}},
		{Fn: peg.FnErrIter1, Times: &[2]int{0, 2}}, {Fn: peg.FnTag, Exists: true, Tr: peg.TrSee}, {Fn: peg.FnConsumeEnd}, {Fn: peg.FnStatusEnd}}
	for i, c := range pick {
		ops = append(ops, peg.CustomOp(c, 1+i%2, i))
		if i < 3 {
			ops = append(ops, peg.CustomOp(c, 2-i%2, i+1))
		}
	}
	ops = append(ops, peg.Seq("a"), peg.Seq("b"), peg.AnyChar(), leaf[8], peg.Star(1), peg.Opt(1), peg.Group(1), peg.Ahead(1, true), peg.Behind(1, 1, 1, false), peg.Erased(), peg.Concat(), peg.Lazy(), peg.First(2), peg.Flat(2))
	size := 4
	if r.Thorough {
		size = 5
	}
	x := Explore{Space: peg.NewSpace(size, ops...), Inputs: []string{"", "a", "ab", "ba", "aab", "bba"}, Variants: vAll, Rotate: true}
	Terms(r, "nested", x)

	// Leaves: every status with every error.
	var lights []*peg.Op
	for _, m := range []string{"a", "ab", ""} {
		for st := p.MatchStatus_Matched; st <= p.MatchStatus_Error; st++ {
			for b := 0; b < 8; b++ {
				lights = append(lights, peg.LightOp(peg.Light{Match: m, Status: st, Err: b&1 != 0, Push: b&2 != 0, Tag: b >> 2}))
			}
		}
	}
	ctxs := []func(n *peg.Node) *peg.Node{
		func(n *peg.Node) *peg.Node { return n }, wrap,
		func(n *peg.Node) *peg.Node { return peg.N(peg.Rep(1, 0, 2), n) },
		func(n *peg.Node) *peg.Node {
			return peg.N(peg.First(2), n, peg.N(peg.AnyChar()))
		},
		func(n *peg.Node) *peg.Node {
			return peg.N(peg.First(2), peg.N(peg.Flat(2), n, peg.N(peg.Never())), peg.N(peg.SeeTag()))
		},
		func(n *peg.Node) *peg.Node { return peg.N(peg.Ahead(1, true), n) },
		func(n *peg.Node) *peg.Node { return peg.N(peg.Ahead(1, false), n) },
		func(n *peg.Node) *peg.Node { return peg.N(peg.Group(2), n, peg.N(peg.SeeTag())) },
	}
	r.Sub("leaves", len(lights)*len(ctxs), func(w *kit.W, i int) {
		n := ctxs[i%len(ctxs)](peg.N(lights[i/len(ctxs)]))
		run(w, n, i, words(3, "a", "b"))
	})
	// A matching leaf counts as one and carries its own name, whatever the function left behind.
	r.Sub("leaf-result", len(lights), func(w *kit.W, i int) {
		l := lights[i]
		n := peg.N(l)
		n.Number()
		fn := n.Build(&peg.Env{})
		for _, v := range vAll {
			for _, src := range words(2, "a", "b") {
				w.Descf("%v on %q (%s)", n, src, v.Name)
				out, err := fn(v.Context(src, 0, 5))
				w.Eval()
				if out.ClassName != "light" {
					w.Fail("class name %q", out.ClassName)
					return
				}
				if err == nil && out.MatchStatus == p.MatchStatus_Matched && out.Quantity != 1 {
					w.Fail("quantity %d", out.Quantity)
					return
				}
			}
		}
	})
}

// transformers36 gives custom parsers chains of up to 12 (thorough 24) transformers: all run, in order, once.
func transformers36(r *kit.Run) {
	props := []struct {
		name string
		p    []interface{}
		none bool // nothing is left to transform
	}{{"no properties", nil, false}, {"once", []interface{}{p.Times{Min: 1, Max: 1}}, false}, {"choice", []interface{}{p.ThereExists{}}, false}, {"rewinding", []interface{}{p.Rewind{}}, true}, {"rewinding once", []interface{}{p.Times{Min: 0, Max: 1}, p.Rewind{}}, true}}
	kinds := []string{"keep", "erase", "push", "double", "nil"}
	most := 12
	if r.Thorough {
		most = 24
	}
	nk := len(kinds)
	r.Sub("transformer-chains", len(props)*2*4*nk*nk*(most+1), func(w *kit.W, i int) {
		pr, withFn, entries := props[i%len(props)], i/len(props)%2 == 1, i/len(props)/2%4
		i /= len(props) * 8
		ka, kb, n := i%nk, i/nk%nk, i/nk/nk
		var ran []int
		var want []string
		if !pr.none {
			for k := 0; k < entries; k++ {
				want = append(want, fmt.Sprint("e", k))
			}
		}
		var trs []p.TransformerFn
		for k := 0; k < n; k++ {
			k := k
			kind := kinds[[]int{ka, kb, 0}[k%3]]
			trs = append(trs, func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				ran = append(ran, k)
				switch kind {
				case "erase":
					return a[:0], nil
				case "nil":
					return nil, nil
				case "push":
					return append(append(p.AstSlice{}, a...), p.Ast{Value: fmt.Sprint("t", k)}), nil
				case "double":
					if len(a) < 9 {
						return append(append(p.AstSlice{}, a...), a...), nil
					}
				}
				return a, nil
			})
			switch kind {
			case "erase", "nil":
				want = nil
			case "push":
				want = append(want, fmt.Sprint("t", k))
			case "double":
				if len(want) < 9 {
					want = append(append([]string{}, want...), want...)
				}
			}
		}
		var in []p.Ast
		for k := 0; k < entries; k++ {
			in = append(in, p.Ast{Value: fmt.Sprint("e", k)})
		}
		var fn p.ParserImplFn
		if withFn {
			fn = func(_, _ int, ctx p.ParserContext) (p.ParserContext, error) { return ctx, nil }
		}
		w.Desc(func() string {
			return fmt.Sprintf("custom parser (%s, function %v) of %d entries with %d transformers (%s, %s, keep, ...)", pr.name, withFn, entries, n, kinds[ka], kinds[kb])
		})
		ctx := p.ParserContext{Str: "ab", AstStack: p.AstSlice{{Value: "below"}}}
		out, err := p.BaseParser("custom", fn, pr.p, []p.ParserFn{p.Zero(in...)}, trs)(ctx)
		w.Eval()
		if n > 0 {
			w.Nontrivial()
		}
		got := []string{}
		for _, a := range out.AstStack {
			got = append(got, fmt.Sprint(a.Value))
		}
		if err != nil || out.MatchStatus != p.MatchStatus_Matched || strings.Join(got, " ") != strings.Join(append([]string{"below"}, want...), " ") {
			w.Fail("%v %v %v, want %v", out.MatchStatus, err, got, want)
			return
		}
		for k := range ran {
			if ran[k] != k {
				w.Fail("ran %v", ran)
				return
			}
		}
		if len(ran) != n {
			w.Fail("ran %v of %d", ran, n)
		}
	})
}
