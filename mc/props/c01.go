package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

var z1 = strR("z", "ins")
var z2 = strR("z2", "ins2")

// ops01 is the full alphabet of grammar constructs.
func ops01() []*peg.Op {
	return []*peg.Op{
		peg.Seq("a"), peg.Seq("b"), peg.Seq("ab"), peg.AnyChar(), peg.CharClass("b", "ba"), peg.CharClassN("a"), peg.CharRange('a', 'b'),
		peg.Start(), peg.End(), peg.Never(), peg.Zero("zero"), peg.Zero("zero1", z1), peg.Zero("zero2", z1, z2), peg.Error("boom"), peg.WordB(), peg.Seq(""), peg.Flat(0),
		peg.Opt(1), peg.Star(1), peg.Plus(1), peg.Once(1), peg.Rep(1, 2, 2), peg.Rep(1, 2, 3), peg.Rep(1, -1, 2), peg.Rep(1, 0, 0), peg.Rep(1, 3, -1),
		peg.Ahead(1, false), peg.Ahead(1, true), peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 2, false), peg.Behind(1, 1, 2, true), peg.Behind(1, 0, 1, true),
		peg.Flat(1), peg.Group(1), peg.First(1), peg.Lazy(), peg.Erased(), peg.Concat(), peg.Popped(), peg.Swapped(), peg.Pushed(), peg.TransErr("tr"),
		peg.Flat(2), peg.First(2), peg.Group(2), peg.Star(2), peg.Opt(2), peg.Rep(2, 1, 2), peg.Ahead(2, false), peg.Ahead(2, true), peg.Behind(2, 1, 2, false), peg.Cond(true), peg.Cond(false),
	}
}

func ops01core() []*peg.Op {
	return []*peg.Op{
		peg.Seq("a"), peg.Seq("b"), peg.AnyChar(), peg.Zero("zero1", z1),
		peg.Opt(1), peg.Star(1), peg.Group(1), peg.Ahead(1, true), peg.Rep(1, 2, 3),
		peg.Flat(2), peg.First(2),
	}
}

// objOps replaces the terminals of an alphabet of constructs by those for sources of objects.
func objOps(ops []*peg.Op) []*peg.Op {
	w := []*peg.Op{peg.ObjIs("a"), peg.ObjSeq("b"), peg.ObjSeq("ab"), peg.ObjAny(), peg.ObjNot("a"), peg.ObjFn("b"), peg.ObjEnd(), peg.ObjSeq("")}
	if len(ops) < 20 {
		w = w[:4]
	}
	for _, o := range ops {
		if !strings.HasPrefix(o.Class, ":string:") && o.Name != "concat" {
			w = append(w, o)
		}
	}
	return w
}

func ops01tiny() []*peg.Op {
	return []*peg.Op{peg.Seq("a"), peg.Seq("b"), peg.Star(1), peg.Ahead(1, true), peg.Flat(2), peg.First(2)}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C01", Level: "model_checking",
		Bounds: "all terms of up to 3 (quick) / 4 (thorough) nodes over 51 constructs; up to 5/6 nodes over 11 core constructs; up to 7/8 nodes over 6; all inputs over {a,b} up to 4/5 symbols and every start position; all terms of up to 3/4 nodes over 22 constructs with literals of 5 and 7 bytes, placed behind 9 and 17 other entries; wide, deep and long sweeps to 3000; all terms of up to 3/4 nodes over 50 constructs and 5/6 over the core on sources of objects; both ends of sources with every code point and byte at them",
		Assumptions: []string{
			"the bodies of unbounded repetitions make progress (terms whose reference run needs more than 40 idle iterations are skipped and counted)",
			"a choice or repetition without members is not generated",
			"the location of group entries and the length of combined entries are not defined by the library",
		},
		Run: func(r *kit.Run) {
			maxFull, maxCore, maxTiny := 3, 5, 7
			in := words(4, "a", "b")
			if r.Thorough {
				maxFull, maxCore, maxTiny = 4, 6, 8
			}
			Terms(r, "all-constructs", Explore{Space: peg.NewSpace(maxFull, ops01()...), Inputs: words(3, "a", "b"), Starts: true, Variants: vAll, Rotate: true})
			Terms(r, "core", Explore{Space: peg.NewSpace(maxCore, ops01core()...), Inputs: in, Variants: vAll, Rotate: true})
			Terms(r, "tiny-deep", Explore{Space: peg.NewSpace(maxTiny, ops01tiny()...), Inputs: in, Variants: []Variant{vPlain, vDirtyU}, Rotate: true})
			// the same combinators over sources of objects
			Terms(r, "objects", Explore{Space: peg.NewSpace(maxFull, objOps(ops01())...), Inputs: words(3, "a", "b"), Starts: true, Variants: vAll, Rotate: true, Ctx: objCtx})
			Terms(r, "objects-core", Explore{Space: peg.NewSpace(maxCore, objOps(ops01core())...), Inputs: in, Variants: vAll, Rotate: true, Ctx: objCtx})
			nary01(r)
			repeats01(r)
			scaled01(r, maxFull)
			wide01(r)
		},
	})
}

// scaled01 explores terms over literals of five and seven characters, after a long match of
// other entries, so that distances and stack heights above the smallest ones are covered too.
func scaled01(r *kit.Run, max int) {
	x, y := "lorem", "ipsumé"
	ops := []*peg.Op{
		peg.Seq(x), peg.Seq(y), peg.AnyChar(), peg.Zero("zero1", z1), peg.End(),
		peg.Opt(1), peg.Star(1), peg.Plus(1), peg.Rep(1, 2, 2), peg.Rep(1, 2, 3), peg.Group(1), peg.Erased(), peg.Concat(), peg.Lazy(),
		peg.Ahead(1, false), peg.Ahead(1, true), peg.Behind(1, 5, 5, false), peg.Behind(1, 1, 7, false), peg.Behind(1, 5, 7, true),
		peg.Flat(2), peg.First(2), peg.Group(2),
	}
	in := words(3, x, y)
	for _, k := range []int{9, 17} {
		pre := strings.Repeat("-", k)
		var src []string
		for _, s := range in {
			src = append(src, pre+s)
		}
		k := k
		Terms(r, fmt.Sprintf("words-after-%d-entries", k), Explore{Space: peg.NewSpace(max+1, ops...), Inputs: src, Variants: vAll, Rotate: true,
			Wrap: func(n *peg.Node) *peg.Node {
				return peg.N(peg.Flat(3), peg.N(peg.Rep(1, k, k), peg.N(peg.AnyChar())), n, peg.N(peg.Star(1), peg.N(peg.AnyChar())))
			}})
	}
}

// Members is a pool of small terms that serve as members of wider constructs: some consume
// nothing, some insert entries, some fail late.
func members() []func() *peg.Node {
	op := func(o *peg.Op, kids ...func() *peg.Node) func() *peg.Node {
		return func() *peg.Node {
			var k []*peg.Node
			for _, f := range kids {
				k = append(k, f())
			}
			return peg.N(o, k...)
		}
	}
	a, b := op(peg.Seq("a")), op(peg.Seq("b"))
	return []func() *peg.Node{
		a, b, op(peg.AnyChar()), op(peg.Never()), op(peg.Zero("zero")), op(peg.Zero("zero1", z1)), op(peg.Ahead(1, false), a), op(peg.Ahead(1, true), a),
		op(peg.Opt(1), b), op(peg.Star(1), a), op(peg.Group(2), a, b), op(peg.Rep(1, 2, 2), op(peg.Ahead(1, false), a)), op(peg.Erased(), a), op(peg.Behind(1, 1, 1, false), a),
	}
}

// nary01 enumerates constructs with three, four (and five) members from the pool.
func nary01(r *kit.Run) {
	pool := members()
	shapes := func(k int) []func(kids []*peg.Node) *peg.Node {
		w := func(o *peg.Op) func([]*peg.Node) *peg.Node {
			return func(kids []*peg.Node) *peg.Node { return peg.N(o, kids...) }
		}
		tail := func(o *peg.Op) func([]*peg.Node) *peg.Node {
			return func(kids []*peg.Node) *peg.Node {
				return peg.N(peg.Flat(3), peg.N(peg.Opt(1), peg.N(peg.Seq("b"))), peg.N(o, kids...), peg.N(peg.AnyChar()))
			}
		}
		s := []func([]*peg.Node) *peg.Node{w(peg.First(k)), w(peg.Flat(k)), tail(peg.First(k)), w(peg.Group(k))}
		if k <= 3 {
			s = append(s, w(peg.Opt(k)), w(peg.Rep(k, 1, 2)), w(peg.Rep(k, 2, 2)), w(peg.Ahead(k, true)), w(peg.Behind(k, 0, 2, true)), tail(peg.Rep(k, 0, 2)))
		}
		return s
	}
	max := 4
	if r.Thorough {
		max = 5
	}
	for k := 3; k <= max; k++ {
		sh := shapes(k)
		n := 1
		for i := 0; i < k; i++ {
			n *= len(pool)
		}
		in := words(3, "a", "b")
		if k > 3 {
			in = []string{"", "a", "b", "ab", "ba", "aab", "bab"}
		}
		r.Sub(fmt.Sprintf("%d-members", k), n*len(sh), func(w *kit.W, i int) {
			var kids []*peg.Node
			j := i / len(sh)
			for x := 0; x < k; x++ {
				kids = append(kids, pool[j%len(pool)]())
				j /= len(pool)
			}
			t := sh[i%len(sh)](kids)
			t.Number()
			runTerm(w, t, i, Explore{Inputs: in, Variants: vAll, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
		})
	}
}

// repeats01 enumerates repetitions of three and four consuming members over texts long enough
// for several iterations, the last one failing at every member.
func repeats01(r *kit.Run) {
	leaf := []*peg.Op{peg.Seq("a"), peg.Seq("b"), peg.Seq("ab"), peg.AnyChar(), peg.Zero("zero1", z1)}
	shapes := []func(k int) *peg.Op{
		func(k int) *peg.Op { return peg.Star(k) }, func(k int) *peg.Op { return peg.Plus(k) }, func(k int) *peg.Op { return peg.Rep(k, 2, -1) }, func(k int) *peg.Op { return peg.Rep(k, 0, 2) },
		func(k int) *peg.Op { return peg.Rep(k, 1, 3) }, func(k int) *peg.Op { return peg.Rep(k, 2, 2) },
	}
	n, k4 := 6, 3
	if r.Thorough {
		n, k4 = 8, 5
	}
	in := words(n, "a", "b")
	for k := 3; k <= 4; k++ {
		pool := leaf
		if k == 4 {
			pool = leaf[:k4]
		}
		total := len(shapes)
		for i := 0; i < k; i++ {
			total *= len(pool)
		}
		r.Sub(fmt.Sprintf("repetitions-of-%d", k), total, func(w *kit.W, i int) {
			x := peg.N(shapes[i%len(shapes)](k))
			j := i / len(shapes)
			for m := 0; m < k; m++ {
				x.Kids = append(x.Kids, peg.N(pool[j%len(pool)]))
				j /= len(pool)
			}
			t := peg.N(peg.Flat(2), x, peg.N(peg.First(2), peg.N(peg.Seq("ab")), peg.N(peg.Opt(1), peg.N(peg.AnyChar()))))
			t.Number()
			runTerm(w, t, i, Explore{Inputs: in, Variants: vAll, Rotate: true, Env: func() *peg.Env { return &peg.Env{} }})
		})
	}
}

// wide01 sweeps sizes: wide sequences and choices, deep nesting and long repetitions.
func wide01(r *kit.Run) {
	a, b := peg.Seq("a"), peg.Seq("b")
	A, B := func() *peg.Node { return peg.N(a) }, func() *peg.Node { return peg.N(b) }
	var sizes []int
	for n := 0; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	if !r.Thorough {
		sizes = append(sizes[:20], 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 1500)
	} else {
		sizes = append(sizes, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 3000)
	}
	type fam struct {
		name string
		mk   func(n int) (*peg.Node, []string)
	}
	rep := func(n int) string { return strings.Repeat("a", n) }
	fams := []fam{
		{"wide sequence", func(n int) (*peg.Node, []string) {
			x := peg.N(peg.Flat(n))
			for i := 0; i < n; i++ {
				x.Kids = append(x.Kids, A())
			}
			return x, []string{rep(n), rep(n + 1), rep(max0(n - 1)), rep(max0(n-1)) + "b"}
		}},
		{"wide group", func(n int) (*peg.Node, []string) {
			x := peg.N(peg.Group(n))
			for i := 0; i < n; i++ {
				x.Kids = append(x.Kids, A())
			}
			return x, []string{rep(n), rep(max0(n-1)) + "b"}
		}},
		{"wide choice", func(n int) (*peg.Node, []string) {
			x := peg.N(peg.First(n + 1))
			for i := 0; i < n; i++ {
				x.Kids = append(x.Kids, peg.N(peg.Flat(2), A(), peg.N(peg.Seq(fmt.Sprintf("%d;", i)))))
			}
			x.Kids = append(x.Kids, B())
			return x, []string{"a0;", fmt.Sprintf("a%d;", n-1), fmt.Sprintf("a%d;", n/2), "b", "a", fmt.Sprintf("a%d;", n)}
		}},
		{"nested sequences", func(n int) (*peg.Node, []string) {
			x := A()
			for i := 0; i < n; i++ {
				x = peg.N(peg.Flat(1), x)
			}
			return x, []string{"a", "b", ""}
		}},
		{"nested groups", func(n int) (*peg.Node, []string) {
			x := A()
			for i := 0; i < n; i++ {
				x = peg.N(peg.Group(2), x, B())
			}
			return x, []string{"a" + strings.Repeat("b", n), "a" + strings.Repeat("b", max0(n-1)), "a" + strings.Repeat("b", n+1)}
		}},
		{"nested choices", func(n int) (*peg.Node, []string) {
			x := A()
			for i := 0; i < n; i++ {
				x = peg.N(peg.First(2), peg.N(peg.Flat(2), B(), A()), x)
			}
			return x, []string{"a", "b", "ba"}
		}},
		{"nested options", func(n int) (*peg.Node, []string) {
			x := A()
			for i := 0; i < n; i++ {
				x = peg.N(peg.Opt(2), A(), x)
			}
			return x, []string{rep(n + 1), rep(n), rep(n / 2), "b"}
		}},
		{"nested predicates", func(n int) (*peg.Node, []string) {
			x := A()
			for i := 0; i < n; i++ {
				x = peg.N(peg.Ahead(1, true), x)
			}
			return x, []string{"a", "b", ""}
		}},
		{"zero or more", func(n int) (*peg.Node, []string) {
			return peg.N(peg.Star(1), A()), []string{rep(n), rep(n) + "b"}
		}},
		{"zero or more of pairs", func(n int) (*peg.Node, []string) {
			return peg.N(peg.Flat(2), peg.N(peg.Star(2), A(), B()), peg.N(peg.Zero("z", z1))), []string{strings.Repeat("ab", n), strings.Repeat("ab", n) + "a"}
		}},
		{"one or more groups", func(n int) (*peg.Node, []string) {
			return peg.N(peg.Plus(1), peg.N(peg.Group(2), A(), peg.N(peg.Opt(1), B()))), []string{strings.Repeat("ab", n), strings.Repeat("aba", n)}
		}},
		{"exact repetition", func(n int) (*peg.Node, []string) {
			return peg.N(peg.Rep(1, n, n), A()), []string{rep(n), rep(n + 2), rep(max0(n - 1))}
		}},
		{"backtracking over many entries", func(n int) (*peg.Node, []string) {
			return peg.N(peg.First(2), peg.N(peg.Flat(2), peg.N(peg.Star(1), A()), B()), peg.N(peg.Group(1), peg.N(peg.Star(1), peg.N(peg.AnyChar())))), []string{rep(n), rep(n) + "b", rep(n) + "c"}
		}},
		{"inserting many entries", func(n int) (*peg.Node, []string) {
			var z []peg.R
			for i := 0; i < n; i++ {
				z = append(z, strR("z", fmt.Sprint(i)))
			}
			return peg.N(peg.Flat(3), A(), peg.N(peg.Zero("many", z...)), B()), []string{"ab", "a", "aa"}
		}},
	}
	r.Sub("sizes", len(fams)*len(sizes), func(w *kit.W, i int) {
		f, n := fams[i/len(sizes)], sizes[i%len(sizes)]
		x, in := f.mk(n)
		x.Number()
		runTermNamed(w, fmt.Sprintf("%s of %d", f.name, n), x, i, Explore{Inputs: in, Variants: []Variant{vPlain, vAll[3]}})
	})
	// The ends of a source are the same whatever character stands there.
	r.Sub("ends", 0x110000+256, func(w *kit.W, i int) {
		if i >= 0xd800 && i <= 0xdfff {
			w.Skip()
			return
		}
		c := string(rune(i))
		if i >= 0x110000 {
			c = string([]byte{byte(i - 0x110000)})
		}
		srcs := []string{c, c + "a", "a" + c, c + c, c + "a" + c}
		if !r.Thorough && i > 0x3100 && i%16 != 15 && i < 0x110000 {
			srcs = srcs[1:3]
		}
		w.Descf("start and end of sources with %q", c)
		for _, s := range srcs {
			for pos := 0; pos <= len(s); pos++ {
				for q, fn := range []p.ParserFn{p.Start(), str.End()} {
					ctx := p.ParserContext{Str: s}
					ctx.Position = pos
					out, err := fn(ctx)
					w.Eval()
					w.Transitions(1)
					want := q == 0 && pos == 0 || q == 1 && pos == len(s)
					if err != nil || (out.MatchStatus == p.MatchStatus_Matched) != want || want && (out.Position != pos || len(out.AstStack) != 0) {
						w.Fail("%s at %d of %q: %v at %d (%v)", []string{"start", "end"}[q], pos, s, out.MatchStatus, out.Position, err)
						return
					}
				}
			}
		}
		w.States(1)
	})
	// Long sources: positions far beyond any small constant.
	r.Sub("long-source", 12, func(w *kit.W, i int) {
		k := 1 << (10 + uint(i)/2)
		if i%2 == 1 {
			k += 3
		}
		src := strings.Repeat("xy", k)
		w.Descf("star(any) and star(\"xy\") on %d characters", len(src))
		for q, fn := range []p.ParserFn{p.ZeroOrMoreTimes(str.Any()), p.OneOrMoreTimes(str.Seq("xy")), p.FlatGroup(p.ZeroOrMoreTimes(str.Seq("xy")), str.End())} {
			out, err := fn(*str.NewStringParserContext(src))
			w.Eval()
			step := 2
			if q == 0 {
				step = 1
			}
			if err != nil || out.MatchStatus != p.MatchStatus_Matched || out.Position != len(src) || len(out.AstStack) != len(src)/step {
				w.Fail("parser %d: %v pos %d, %d entries, err %v", q, out.MatchStatus, out.Position, len(out.AstStack), err)
				return
			}
			for j, a := range out.AstStack {
				if a.Position != j*step || a.Length != step || a.Value.(string) != src[j*step:(j+1)*step] {
					w.Fail("parser %d entry %d: %v", q, j, a)
					return
				}
			}
		}
	})
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func runTermNamed(w *kit.W, name string, n *peg.Node, i int, x Explore) {
	if x.Env == nil {
		x.Env = func() *peg.Env { return &peg.Env{} }
	}
	runTerm(w, n, i, x)
	w.Desc(func() string { return name })
}
