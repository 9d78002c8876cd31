package props

import (
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
	"verif/mc/peg"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C04", Level: "model_checking",
		Bounds:      "22 predicates (look-ahead, look-behind {0..3,0..4}, positive and negative, one or two bodies) around all body terms of up to 2/3 nodes over 26 constructs, alone, in a sequence and as a choice alternative, on all inputs over {a,b} up to 4 symbols and over 1..4-byte characters up to 3, at every byte position, in all 6 starting contexts (stale status included); the predicates over sources of objects; look-behind windows up to 300/1100 back with the body at every distance of a grid",
		Assumptions: []string{"unbounded repetitions make progress", "look-behind ranges are non-negative"},
		Run:         run04,
	})
}

func run04(r *kit.Run) {
	body := []*peg.Op{
		peg.Seq("a"), peg.Seq("b"), peg.Seq("ab"), peg.AnyChar(), peg.Start(), peg.End(), peg.Never(), peg.Zero("zero1", z1), peg.Error("boom"), peg.Dirty(), peg.DirtyHere(), peg.TagInc("a"), peg.MatchTop(2, "pre1", "m"), peg.MatchPlain(1, "mp"), peg.Seq(""), peg.WordB(),
		peg.Star(1), peg.Opt(1), peg.Group(1), peg.Erased(), peg.Ahead(1, true), peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 1, true), peg.Lazy(),
		peg.Flat(2), peg.First(2),
	}
	preds := []*peg.Op{peg.Ahead(1, false), peg.Ahead(1, true)}
	for _, neg := range []bool{false, true} {
		for _, q := range [][2]int{{0, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 2}, {1, 3}, {0, 4}, {3, 3}, {2, 1}, {3, 9}} {
			preds = append(preds, peg.Behind(1, q[0], q[1], neg))
		}
	}
	size := 2
	if r.Thorough {
		size = 3
	}
	sp := peg.NewSpace(size, body...)
	shapesOf := func(any, a func() *peg.Op) []func(x *peg.Node) *peg.Node {
		return []func(x *peg.Node) *peg.Node{
			func(x *peg.Node) *peg.Node { return x },
			func(x *peg.Node) *peg.Node { return peg.N(peg.Flat(3), x, peg.N(any()), peg.N(peg.SeeTag())) },
			func(x *peg.Node) *peg.Node {
				return peg.N(peg.First(2), peg.N(peg.Flat(2), x, peg.N(a())), peg.N(peg.Flat(2), peg.N(any()), x))
			},
			func(x *peg.Node) *peg.Node { return peg.N(peg.Flat(3), peg.N(any()), x, peg.N(any())) },
			func(x *peg.Node) *peg.Node { return peg.N(peg.Group(3), peg.N(peg.Zero("z", z2)), x, x) },
		}
	}
	shapes := shapesOf(peg.AnyChar, func() *peg.Op { return peg.Seq("a") })
	eval := func(name string, in []string, spc *peg.Space, mk func(Variant, string, int) p.ParserContext) {
		per := len(preds) * len(shapes)
		r.Sub(name, spc.Len()*per, func(w *kit.W, i int) {
			b, shapes := spc.At(i/per), shapes
			if mk != nil {
				shapes = shapesOf(peg.ObjAny, func() *peg.Op { return peg.ObjIs("a") })
			}
			n := shapes[i%len(shapes)](peg.N(preds[i%per/len(shapes)], b))
			n.Number()
			runTerm(w, n, i, Explore{Inputs: in, Starts: true, Variants: vAll, Rotate: true, Ctx: mk, Env: func() *peg.Env { return &peg.Env{} },
				Extra: func(w *kit.W, _ *peg.Node, _ string, in, out p.ParserContext, _ error, want peg.Result) {
					if want.St == peg.OK && i%len(shapes) == 0 && len(out.AstStack) != len(want.S.List) {
						w.Fail("left %d entries", len(out.AstStack))
					}
					if want.St == peg.OK && i%len(shapes) == 0 && (out.SourcePosition != in.SourcePosition || out.Quantity != in.Quantity) {
						w.Fail("context went in with %+v quantity %d and came out with %+v, %d", in.SourcePosition, in.Quantity, out.SourcePosition, out.Quantity)
					}
				}})
		})
	}
	eval("ascii", words(4, "a", "b"), sp, nil)
	eval("objects", words(4, "a", "b"), peg.NewSpace(size, objOps(body)...), objCtx)
	multi := []*peg.Op{peg.Seq("é"), peg.Seq("漢"), peg.Seq("😀"), peg.AnyChar(), peg.CharClassN("a"), peg.Start(), peg.WordB(), peg.Flat(2)}
	eval("multi-byte", words(3, "a", "é", "漢", "😀", "\xff"), peg.NewSpace(size-1, multi...), nil)
	// several bodies in one predicate
	duo := []*peg.Op{peg.Seq("a"), peg.Seq("b"), peg.AnyChar(), peg.Error("boom"), peg.Zero("z", z1), peg.TagInc("b"), peg.End()}
	two := []*peg.Op{peg.Ahead(2, false), peg.Ahead(2, true), peg.Behind(2, 1, 2, false), peg.Behind(2, 2, 2, true), peg.Behind(2, 0, 3, true)}
	r.Sub("two-bodies", len(duo)*len(duo)*len(two)*len(shapes), func(w *kit.W, i int) {
		s := shapes[i%len(shapes)]
		q := i / len(shapes)
		op := two[q%len(two)]
		q /= len(two)
		n := s(peg.N(op, peg.N(duo[q%len(duo)]), peg.N(duo[q/len(duo)])))
		n.Number()
		runTerm(w, n, i, Explore{Inputs: words(4, "a", "b"), Starts: true, Variants: vAll, Env: func() *peg.Env { return &peg.Env{} }})
	})
	windows04(r)
}

// windows04 looks behind over long distances: a body that is found at one distance only, and
// every window around, below and above it.
func windows04(r *kit.Run) {
	dist := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	if r.Thorough {
		dist = append(dist, 6, 10, 12, 20, 24, 40, 48, 80, 96, 150, 180, 250, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1100)
	}
	lows, fronts := []int{0, 1, 2, 7, 16, 64, 65, 100, 255, 257, 300}, []int{0, 40}
	if r.Thorough {
		lows, fronts = dist, []int{0, 1, 40}
	}
	bodies := []struct {
		name string
		mk   func() *peg.Node
		text string
	}{
		{"a", func() *peg.Node { return peg.N(peg.Seq("a")) }, "a"},
		{"abb", func() *peg.Node { return peg.N(peg.Seq("abb")) }, "abb"},
		{"a with an entry", func() *peg.Node { return peg.N(peg.Flat(2), peg.N(peg.Zero("z", z1)), peg.N(peg.Seq("a"))) }, "a"},
		{"^a", func() *peg.Node { return peg.N(peg.Flat(2), peg.N(peg.Start()), peg.N(peg.Seq("a"))) }, "a"},
		{"a not at start", func() *peg.Node {
			return peg.N(peg.Flat(2), peg.N(peg.Ahead(1, true), peg.N(peg.Start())), peg.N(peg.Seq("a")))
		}, "a"},
	}
	extra := []int{-1, 0, 1, 50}
	r.Sub("long-windows", len(dist)*len(lows)*len(bodies)*2, func(w *kit.W, i int) {
		neg := i%2 == 1
		i /= 2
		b := bodies[i%len(bodies)]
		i /= len(bodies)
		d, lo := dist[i%len(dist)], lows[i/len(dist)]
		for _, e := range extra {
			hi := d + e
			if hi < 0 {
				continue
			}
			n := peg.N(peg.Flat(3), peg.N(peg.Rep(1, -1, -1), peg.N(peg.Flat(2), peg.N(peg.Ahead(1, true), peg.N(peg.Seq("!"))), peg.N(peg.AnyChar()))), peg.N(peg.Behind(1, lo, hi, neg), b.mk()), peg.N(peg.Star(1), peg.N(peg.AnyChar())))
			n.Number()
			var in []string
			for _, front := range fronts {
				pad := d - len(b.text)
				if pad < 0 {
					pad = 0
				}
				in = append(in, strings.Repeat("c", front)+b.text+strings.Repeat("b", pad)+"!", strings.Repeat("b", front+d)+"!a")
			}
			runTerm(w, n, i, Explore{Inputs: in, Variants: []Variant{vPlain, vDirtyE}, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
			if w.Failed() {
				return
			}
		}
		w.Nontrivial()
	})
}
