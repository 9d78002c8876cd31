package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C03", Level: "model_checking",
		Bounds:      "all bounds {min,max} with min in -2..5 and max in -2..6 (max unbounded or >= min) x 29 bodies (consuming, zero-width, choosing, grouping, partly failing, repeating) x all inputs over {a,b} up to 7/8 symbols x 3 contexts; nested repetitions {m,n} of {k,l} up to 3; counts 0..1100 around powers of two for exact and open bounds; the bounds over 9 bodies on sources of objects; the runs of bodies that stand still or move counted for maxima up to 130 and around 256, 512 and 1024; bounds at and around every power of two up to 2^63-1",
		Assumptions: []string{"bounds with 0 <= max < min have no defined meaning and are not generated", "unbounded repetitions make progress"},
		Run:         run03,
	})
}

func run03(r *kit.Run) {
	a, b := peg.Seq("a"), peg.Seq("b")
	A, B := peg.N(a), peg.N(b)
	bodies := [][]*peg.Node{
		{A}, {B}, {peg.N(peg.AnyChar())}, {peg.N(peg.Seq("ab"))}, {A, B}, {A, A}, {A, B, A}, {A, A, A},
		{peg.N(peg.First(2), peg.N(peg.Seq("ab")), A)}, {peg.N(peg.First(2), A, peg.N(peg.Seq("ab")))}, {peg.N(peg.First(2), B, A)},
		{A, peg.N(peg.Opt(1), B)}, {peg.N(peg.Opt(1), B), A}, {peg.N(peg.Group(1), A)}, {peg.N(peg.Group(2), A, B)},
		{peg.N(peg.Plus(1), A), B}, {A, peg.N(peg.Star(1), B)}, {peg.N(peg.Zero("z", z1)), A}, {A, peg.N(peg.Ahead(1, false), A)}, {A, peg.N(peg.Ahead(1, true), B)},
		{peg.N(peg.Erased(), A)}, {peg.N(peg.Zero("z", z1))}, {peg.N(peg.Opt(1), A)}, {peg.N(peg.Ahead(1, false), A)}, {peg.N(peg.Dirty())},
		{peg.N(peg.Zero("z", z1)), peg.N(peg.MatchTop(2, "ins", "m"))},
		// bodies that come to stand still without entries
		{peg.N(peg.Erased(), peg.N(peg.Opt(1), A)), peg.N(peg.Zero("none")), peg.N(peg.Ahead(1, true), B)}, {peg.N(peg.Opt(1), A), peg.N(peg.Zero("none")), peg.N(peg.Opt(1), B)}, {peg.N(peg.Erased(), peg.N(peg.Opt(1), peg.N(peg.AnyChar()))), peg.N(peg.Zero("none")), peg.N(peg.Zero("nil")), peg.N(peg.Zero("void"))},
	}
	var bounds [][2]int
	for min := -2; min <= 5; min++ {
		for max := -2; max <= 6; max++ {
			if max >= 0 && max < min {
				continue
			}
			bounds = append(bounds, [2]int{min, max})
		}
	}
	maxLen := 7
	if r.Thorough {
		maxLen = 9
	}
	in := words(maxLen, "a", "b")
	named := []func(int) *peg.Op{peg.Once, peg.Opt, peg.Star, peg.Plus}
	per := len(bounds) + len(named)
	quantity := func(w *kit.W, n *peg.Node, src string, in, out p.ParserContext, err error, want peg.Result) {
		if want.St == peg.OK && out.Quantity != want.S.Qty {
			w.Fail("reports %d iterations, want %d", out.Quantity, want.S.Qty)
		}
	}
	x := Explore{Inputs: in, Variants: []Variant{vPlain, vDirtyU, vDirtyE}, Rotate: true, Extra: quantity}
	r.Sub("bounds", per*len(bodies), func(w *kit.W, i int) {
		body := bodies[i/per]
		var op *peg.Op
		if k := i % per; k < len(bounds) {
			op = peg.Rep(len(body), bounds[k][0], bounds[k][1])
		} else {
			op = named[k-len(bounds)](len(body))
		}
		n := peg.N(op, body...)
		n.Number()
		y := x
		y.Env = func() *peg.Env { return &peg.Env{} }
		runTerm(w, n, i, y)
	})
	// the same over sources of objects
	objBodies := [][]*peg.Node{
		{peg.N(peg.ObjIs("a"))}, {peg.N(peg.ObjAny())}, {peg.N(peg.ObjSeq("ab"))}, {peg.N(peg.ObjIs("a")), peg.N(peg.ObjNot("a"))}, {peg.N(peg.First(2), peg.N(peg.ObjSeq("ab")), peg.N(peg.ObjIs("a")))},
		{peg.N(peg.ObjFn("a")), peg.N(peg.Opt(1), peg.N(peg.ObjSeq("b")))}, {peg.N(peg.Group(2), peg.N(peg.ObjAny()), peg.N(peg.ObjAny()))}, {peg.N(peg.ObjSeq(""))}, {peg.N(peg.Ahead(1, true), peg.N(peg.ObjEnd())), peg.N(peg.ObjAny())},
	}
	r.Sub("object-bounds", per*len(objBodies), func(w *kit.W, i int) {
		body := objBodies[i/per]
		var op *peg.Op
		if k := i % per; k < len(bounds) {
			op = peg.Rep(len(body), bounds[k][0], bounds[k][1])
		} else {
			op = named[k-len(bounds)](len(body))
		}
		n := peg.N(op, body...)
		n.Number()
		y := x
		y.Ctx = objCtx
		y.Env = func() *peg.Env { return &peg.Env{} }
		runTerm(w, n, i, y)
	})
	// followed by something, so that giving back or overrunning shows
	r.Sub("in-sequence", per*len(bodies), func(w *kit.W, i int) {
		body := bodies[i/per]
		var op *peg.Op
		if k := i % per; k < len(bounds) {
			op = peg.Rep(len(body), bounds[k][0], bounds[k][1])
		} else {
			op = named[k-len(bounds)](len(body))
		}
		n := peg.N(peg.Flat(3), peg.N(peg.Opt(1), B), peg.N(op, body...), peg.N(peg.Group(1), peg.N(peg.Opt(1), A)))
		n.Number()
		runTerm(w, n, i, Explore{Inputs: in, Variants: []Variant{vPlain, vAll[2]}, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
	})
	small := []([2]int){{0, 0}, {0, 1}, {0, 2}, {0, -1}, {1, 1}, {1, 2}, {1, -1}, {2, 2}, {2, 3}, {2, -1}, {3, 3}, {-1, -1}, {-1, 2}}
	m := len(small)
	inner := [][]*peg.Node{{A}, {peg.N(peg.First(2), A, B)}, {A, B}}
	r.Sub("nested", m*m*len(inner), func(w *kit.W, i int) {
		o, k, body := small[i%m], small[i/m%m], inner[i/m/m]
		n := peg.N(peg.Rep(1, o[0], o[1]), peg.N(peg.Rep(len(body), k[0], k[1]), body...))
		if o[1] < 0 && k[0] <= 0 {
			// an unbounded repetition of something that may consume nothing
			n = peg.N(peg.Rep(2, o[0], o[1]), n.Kids[0], B)
		}
		n.Number()
		y := x
		y.Env = func() *peg.Env { return &peg.Env{} }
		runTerm(w, n, i, y)
	})
	// large counts: exact, minimum and maximum bounds at, below and above what is available
	var ks []int
	for k := 0; k <= 300; k++ {
		ks = append(ks, k)
	}
	ks = append(ks, 511, 512, 513, 1000, 1023, 1024, 1025, 1026, 1100, 4095, 4096, 4097, 65535, 65536, 65537)
	r.Sub("large-counts", len(ks), func(w *kit.W, i int) {
		k := ks[i]
		src := strings.Repeat("a", k) + "b"
		for _, d := range []int{-2, -1, 0, 1, 2} {
			bnd := k + d
			if bnd < 0 {
				continue
			}
			for form, t := range map[string]p.Times{"exact": {Min: bnd, Max: bnd}, "min": {Min: bnd, Max: -1}, "max": {Min: 0, Max: bnd}, "nomin": {Min: -1, Max: bnd}} {
				w.Descf("Repeat(%+v) of 'a' on %d available", t, k)
				out, err := p.FlatGroup(p.Repeat(t, str.Seq("a")))(*str.NewStringParserContext(src))
				q, _ := p.Repeat(t, str.Seq("a"))(*str.NewStringParserContext(src))
				w.Eval()
				n := k
				if t.Max >= 0 && t.Max < n {
					n = t.Max
				}
				ok := t.Min < 0 || k >= t.Min
				w.Transitions(n)
				w.States(1)
				if err != nil || (out.MatchStatus == p.MatchStatus_Matched) != ok {
					w.Fail("%s: status %v err %v, want matched=%v", form, out.MatchStatus, err, ok)
					return
				}
				if ok && (out.Position != n || len(out.AstStack) != n || q.Quantity != n) {
					w.Fail("%s: position %d, %d entries, quantity %d, want %d", form, out.Position, len(out.AstStack), q.Quantity, n)
					return
				}
				w.SeeStr(fmt.Sprint(form, ok, n))
			}
		}
		w.Nontrivial()
	})
	// A body that never moves is run as often as the maximum says, and a body that ends is not
	// tried again: the runs themselves are counted.
	widths := []string{"standing still", "moving", "pushing", "second member counts", "in a group"}
	r.Sub("body-runs", len(widths)*140, func(w *kit.W, i int) {
		kind, max := i/140, i%140
		if max > 130 {
			max = []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025}[max-131]
		}
		for _, min := range []int{-1, 0, 1, max / 2, max - 1, max} {
			if min > max || min < -1 {
				continue
			}
			runs := 0
			src := ""
			step := func(ctx p.ParserContext) (p.ParserContext, error) {
				runs++
				if kind == 1 {
					ctx.Position++
				}
				if kind == 2 {
					ctx.AstStack = append(ctx.AstStack, p.Ast{Value: runs})
				}
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			}
			if kind == 1 {
				src = strings.Repeat("x", max)
			}
			body := []p.ParserFn{p.LightBaseParser("step", step)}
			switch kind {
			case 3:
				body = []p.ParserFn{p.Zero(), body[0]}
			case 4:
				body = []p.ParserFn{p.FlatGroup(p.Zero(), body[0], p.Zero())}
			}
			w.Descf("Repeat{%d,%d} of a body %s", min, max, widths[kind])
			out, err := p.Repeat(p.Times{Min: min, Max: max}, body...)(*str.NewStringParserContext(src))
			w.Eval()
			w.States(1)
			w.Transitions(runs)
			if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Quantity != max || runs != max {
				w.Fail("status %v, error %v, %d iterations reported, %d made, want %d", out.MatchStatus, err, out.Quantity, runs, max)
				return
			}
			if kind == 1 && out.Position != max || kind == 2 && len(out.AstStack) != max {
				w.Fail("position %d, %d entries", out.Position, len(out.AstStack))
				return
			}
		}
		w.Nontrivial()
	})
	// bounds beyond anything available: a huge maximum never stops a repetition early and a huge
	// minimum is never satisfied
	var huge []int
	for sh := uint(7); sh < 63; sh++ {
		huge = append(huge, 1<<sh-1, 1<<sh, 1<<sh+1, 1<<sh+3)
	}
	huge = append(huge, 1<<63-2, 1<<63-1)
	r.Sub("huge-bounds", len(huge)*7, func(w *kit.W, i int) {
		bnd, have := huge[i/7], i%7
		src := strings.Repeat("a", have) + "b"
		for form, t := range map[string]p.Times{
			"max": {Min: 0, Max: bnd}, "nomin": {Min: -1, Max: bnd}, "from one": {Min: 1, Max: bnd}, "exact": {Min: bnd, Max: bnd},
			"min": {Min: bnd, Max: -1}, "negative max": {Min: 0, Max: -bnd}, "negative min": {Min: -bnd, Max: 3},
		} {
			w.Descf("Repeat(%+v) of 'a' on %d available", t, have)
			q, err := p.Repeat(t, str.Seq("a"))(*str.NewStringParserContext(src))
			w.Eval()
			w.States(1)
			n := have
			if t.Max >= 0 && t.Max < n {
				n = t.Max
			}
			ok := t.Min < 0 || have >= t.Min
			w.Transitions(n)
			if err != nil || (q.MatchStatus == p.MatchStatus_Matched) != ok {
				w.Fail("%s: status %v err %v, want matched=%v", form, q.MatchStatus, err, ok)
				return
			}
			if ok && (q.Position != n || len(q.AstStack) != n || q.Quantity != n) {
				w.Fail("%s: position %d, %d entries, quantity %d, want %d", form, q.Position, len(q.AstStack), q.Quantity, n)
				return
			}
		}
		w.Nontrivial()
	})
}
