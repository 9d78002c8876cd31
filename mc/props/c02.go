package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

func ops02() []*peg.Op {
	return []*peg.Op{
		peg.Seq("a"), peg.Seq("b"), peg.Zero("zero1", z1), peg.Zero("zero2", z1, z2), peg.Never(), peg.Dirty(), peg.TagInc("a"), peg.SeeTag(),
		peg.MatchTop(1, "a", "m1"), peg.MatchTop(2, "b", "m2"),
		peg.Star(1), peg.Opt(1), peg.Rep(1, 2, 3), peg.Group(1), peg.Erased(), peg.Concat(), peg.Pushed(), peg.Prepended(), peg.Swapped(), peg.Popped(), peg.Probe(), peg.Named("renamed"),
		peg.Ahead(1, false), peg.Ahead(1, true), peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 1, true), peg.Lazy(),
		peg.Flat(2), peg.First(2), peg.Star(2), peg.Group(2), peg.Opt(2),
		peg.Ahead(2, true), peg.Ahead(2, false), peg.Behind(2, 0, 1, true),
	}
}

func ops02core() []*peg.Op {
	return []*peg.Op{
		peg.Seq("a"), peg.Zero("zero1", z1), peg.Dirty(), peg.MatchTop(2, "a", "m2"), peg.Seq("b"),
		peg.Group(1), peg.Ahead(1, true), peg.Probe(), peg.Opt(1),
		peg.Flat(2), peg.First(2),
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C02", Level: "model_checking",
		Bounds: "all terms of up to 3/4 nodes over 35 constructs that push, group, erase, reorder, rewrite and fail, and up to 5/6 nodes over 11 of them; up to 4/5 nodes over 17 constructs that rewrite or remove older entries, in 4 surroundings; inputs over {a,b} up to 3 symbols; every one of 6 starting contexts (0..3 caller entries, spare capacity 0..1024); abandoned pushes of 0..9 entries on stacks of 0..9 entries with 0..9 spare places, and around 1024; the same constructs over sources of objects; abandoned pushes of up to 1025/1200 entries on stacks of up to 2100, whose entries have growing, no or alternating extents",
		Assumptions: []string{
			"a wrapped body never removes entries below its own start (such terms are skipped and counted)",
			"unbounded repetitions make progress",
		},
		Run: func(r *kit.Run) {
			a, b := 3, 5
			if r.Thorough {
				a, b = 4, 6
			}
			Terms(r, "all-constructs", Explore{Space: peg.NewSpace(a, ops02()...), Inputs: words(3, "a", "b"), Variants: vAll})
			Terms(r, "core-deep", Explore{Space: peg.NewSpace(b, ops02core()...), Inputs: []string{"", "a", "b", "aa", "ab", "aab"}, Variants: vAll})
			Terms(r, "objects", Explore{Space: peg.NewSpace(a, objOps(ops02())...), Inputs: words(3, "a", "b"), Variants: vAll, Ctx: objCtx})
			below02(r, a+1)
			stack02(r)
		},
	})
}

// below02 abandons attempts that rewrote or removed entries older than themselves.
func below02(r *kit.Run, max int) {
	ops := []*peg.Op{
		peg.MatchTop(1, "a", "m1"), peg.MatchTop(2, "b", "m2"), peg.MatchTop(3, "b", "m3"), peg.MatchPlain(2, "mp"), peg.MatchDrop(1, "b"), peg.MatchDrop(2, "a"),
		peg.Seq("a"), peg.Seq("b"), peg.Rep(1, 2, 2), peg.Rep(1, 2, 3), peg.Opt(1), peg.Star(1), peg.Ahead(1, true), peg.Ahead(1, false), peg.Behind(1, 0, 1, false), peg.Flat(2), peg.First(2),
	}
	rest := func() *peg.Node { return peg.N(peg.Star(1), peg.N(peg.AnyChar())) }
	seq := func(k ...*peg.Node) *peg.Node { return peg.N(peg.Flat(len(k)), k...) }
	any := func() *peg.Node { return peg.N(peg.AnyChar()) }
	for _, t := range []struct {
		name string
		wrap func(n *peg.Node) *peg.Node
	}{
		{"after-one", func(n *peg.Node) *peg.Node { return seq(peg.N(peg.Seq("a")), n, rest()) }},
		{"after-two", func(n *peg.Node) *peg.Node { return seq(any(), any(), peg.N(peg.First(2), n, any()), rest()) }},
		{"each", func(n *peg.Node) *peg.Node { return peg.N(peg.Star(2), any(), n) }},
		{"choice", func(n *peg.Node) *peg.Node {
			return seq(any(), peg.N(peg.First(2), seq(any(), n, any(), any()), peg.N(peg.Opt(1), any())), rest())
		}},
	} {
		Terms(r, "rewrites-below-"+t.name, Explore{Space: peg.NewSpace(max, ops...), Inputs: words(4, "a", "b"), Variants: vAll, Rotate: true, Wrap: t.wrap})
	}
}

// stack02 abandons attempts on stacks of every small length and spare capacity.
func stack02(r *kit.Run) {
	// shapes of attempts: push k entries, then give up
	type shape struct {
		name string
		mk   func(k int) p.ParserFn // the attempt, which always fails after pushing k entries
	}
	pushes := func(k int) p.ParserFn {
		var z []p.Ast
		for i := 0; i < k; i++ {
			z = append(z, p.Ast{ClassName: "junk", Type: p.AstType_String, Value: fmt.Sprint("junk", i)})
		}
		return p.Zero(z...)
	}
	fails := []shape{
		{"sequence", func(k int) p.ParserFn { return p.FlatGroup(pushes(k), p.Unmatched()) }},
		{"group in sequence", func(k int) p.ParserFn { return p.FlatGroup(p.Group(pushes(k)), pushes(1), p.Unmatched()) }},
		{"erased in sequence", func(k int) p.ParserFn { return p.FlatGroup(p.Trans(pushes(k), p.Erase), pushes(2), p.Unmatched()) }},
		{"short repetition", func(k int) p.ParserFn { return p.Repeat(p.Times{Min: 3, Max: 5}, pushes(k), str.Seq("a")) }},
		{"match in sequence", func(k int) p.ParserFn {
			return p.FlatGroup(pushes(k), p.Match(k+2)(p.Case{If: p.TopIsAny, Let: []p.TransformerFn{p.SetValue(p.AstType_String, "rewritten"), p.ChangeClassName("rewritten")}}), p.Unmatched())
		}},
		{"match replaces all in sequence", func(k int) p.ParserFn {
			return p.FlatGroup(p.Match(k+1)(p.Case{If: p.TopIsAny, Let: []p.TransformerFn{p.Erase, p.Push(p.Ast{Value: "x"})}}), pushes(k), p.Unmatched())
		}},
		{"negative look-ahead", func(k int) p.ParserFn { return p.FlatGroup(p.LookAheadN(pushes(k))) }},
		{"look-behind", func(k int) p.ParserFn { return p.LookBehind(0, 0, pushes(k), p.Unmatched()) }},
		{"swap in sequence", func(k int) p.ParserFn {
			return p.FlatGroup(p.Trans(pushes(k), p.Exchange, p.Roll(1), p.Prepend(p.Ast{Value: "q"})), p.Unmatched())
		}},
		{"custom parser that truncates", func(k int) p.ParserFn {
			return p.LightBaseParser("trunc", func(ctx p.ParserContext) (p.ParserContext, error) {
				n := len(ctx.AstStack) - k
				if n < 0 {
					n = 0
				}
				ctx.AstStack = ctx.AstStack[:n]
				ctx.Position = len(ctx.Str)
				ctx.MatchStatus = p.MatchStatus_Unmatched
				return ctx, nil
			})
		}},
	}
	// ways to abandon an attempt
	gives := []struct {
		name string
		mk   func(at p.ParserFn) p.ParserFn
	}{
		{"alternative", func(at p.ParserFn) p.ParserFn { return p.First(at, p.Zero()) }},
		{"two alternatives", func(at p.ParserFn) p.ParserFn { return p.First(at, at, p.Zero()) }},
		{"option", func(at p.ParserFn) p.ParserFn { return p.ZeroOrOnce(at) }},
		{"repetition", func(at p.ParserFn) p.ParserFn { return p.ZeroOrMoreTimes(at) }},
		{"negative predicate", func(at p.ParserFn) p.ParserFn { return p.LookAheadN(at) }},
		{"look-behind", func(at p.ParserFn) p.ParserFn { return p.LookBehindN(0, 0, at) }},
		{"negative predicate of two", func(at p.ParserFn) p.ParserFn { return p.LookAheadN(at, p.Zero()) }},
		{"negative predicate, second", func(at p.ParserFn) p.ParserFn { return p.LookAheadN(p.Zero(), p.ZeroOrOnce(at), at) }},
		{"two looked behind", func(at p.ParserFn) p.ParserFn { return p.LookBehindN(0, 0, p.Zero(), at, p.Zero()) }},
		{"option of two", func(at p.ParserFn) p.ParserFn { return p.ZeroOrOnce(p.Zero(), at) }},
		{"repetition of two", func(at p.ParserFn) p.ParserFn { return p.ZeroOrMoreTimes(at, p.Zero()) }},
		{"predicate in an option", func(at p.ParserFn) p.ParserFn { return p.ZeroOrOnce(p.LookAhead(p.Zero(), at)) }},
		{"looked behind in an option", func(at p.ParserFn) p.ParserFn { return p.ZeroOrOnce(p.LookBehind(0, 0, p.Zero(), at)) }},
		{"grouped option", func(at p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(at), p.First(at, p.Zero())) }},
	}
	dims := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	if !r.Thorough {
		dims = []int{0, 1, 2, 3, 4, 7}
	}
	nd := len(dims)
	total := len(fails) * len(gives) * nd * nd * nd
	after := p.Zero(p.Ast{ClassName: "after", Type: p.AstType_String, Value: "after"})
	r.Sub("stack-shapes", total, func(w *kit.W, i int) {
		spare := dims[i%nd]
		i /= nd
		depth := dims[i%nd]
		i /= nd
		k := dims[i%nd]
		i /= nd
		g := gives[i%len(gives)]
		f := fails[i/len(gives)]
		w.Descf("%s of %s, pushing %d on a stack of %d with %d spare places", g.name, f.name, k, depth, spare)
		stackCase(w, g.mk(f.mk(k)), after, depth, spare)
		w.Nontrivial()
	})
	big := []int{1, 2, 511, 1022, 1023, 1024, 1025, 1030, 1100, 2048, 2100}
	heaps := []int{0, 3, 100, 201, 255, 256, 257, 513, 1025, 1200}
	if !r.Thorough {
		big = []int{1, 511, 1023, 1024, 1025, 1100, 2100}
		heaps = []int{0, 3, 201, 257, 1025}
	}
	r.Sub("stack-around-default-capacity", len(fails)*len(gives)*len(big)*len(heaps)*2, func(w *kit.W, i int) {
		spareDefault := i%2 == 0
		i /= 2
		depth := big[i%len(big)]
		i /= len(big)
		k := heaps[i%len(heaps)]
		i /= len(heaps)
		g := gives[i%len(gives)]
		f := fails[i/len(gives)]
		spare := 0
		if spareDefault {
			spare = max0(1024 - depth)
		}
		w.Descf("%s of %s, pushing %d on a stack of %d with %d spare places", g.name, f.name, k, depth, spare)
		stackCase(w, g.mk(f.mk(k)), after, depth, spare)
		w.Nontrivial()
	})
	// A transformer sees exactly what its body produced, whatever lies below and around it.
	r.Sub("transformer-view", nd*nd*nd*4, func(w *kit.W, i int) {
		mode := i % 4
		i /= 4
		depth, k, spare := dims[i%nd], dims[i/nd%nd], dims[i/nd/nd%nd]
		var seen []string
		look := func(_ p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
			s := []string{}
			for _, a := range asts {
				s = append(s, fmt.Sprint(a.Value))
			}
			seen = append(seen, strings.Join(s, ","))
			return asts, nil
		}
		body := p.FlatGroup(pushes(k), str.Seq("a"))
		var want []string
		names := func(pre string, n int) string {
			var s []string
			for j := 0; j < n; j++ {
				s = append(s, fmt.Sprint(pre, j))
			}
			return strings.Join(s, ",")
		}
		full := names("junk", k)
		if full != "" {
			full += ","
		}
		full += "a"
		var fn p.ParserFn
		switch mode {
		case 0:
			fn = p.Trans(body, look)
			want = []string{full}
		case 1:
			fn = p.FlatGroup(p.Zero(p.Ast{Value: "below"}), p.Trans(body, look, p.Erase, look))
			want = []string{full, ""}
		case 2:
			fn = p.First(p.FlatGroup(pushes(3), p.Trans(body, look), p.Unmatched()), p.Trans(body, look))
			want = []string{full, full}
		case 3:
			fn = p.Trans(p.FlatGroup(p.Trans(pushes(k), look), p.Trans(str.Seq("a"), look)), look)
			want = []string{names("junk", k), "a", full}
		}
		w.Descf("mode %d, %d produced over %d entries, %d spare", mode, k+1, depth, spare)
		ctx := *str.NewStringParserContext("a")
		ctx.AstStack = make(p.AstSlice, depth, depth+spare)
		_, err := fn(ctx)
		w.Eval()
		w.Nontrivial()
		if err != nil || fmt.Sprint(seen) != fmt.Sprint(want) {
			w.Fail("transformers saw %v (err %v), want %v", seen, err, want)
		}
	})
}

func stackCase(w *kit.W, fn, after p.ParserFn, depth, spare int) {
	for shape := 0; shape < 3 && !w.Failed(); shape++ {
		stackCaseOf(w, fn, after, depth, spare, shape)
	}
}

// stackCaseOf: the caller's entries have growing, no, or alternating extents in the source.
func stackCaseOf(w *kit.W, fn, after p.ParserFn, depth, spare, shape int) {
	at := func(i int) p.SourcePosition {
		if shape == 1 || shape == 2 && i%2 == 1 {
			return p.SourcePosition{Position: -(i % 3)}
		}
		return p.SourcePosition{Position: i, Length: i}
	}
	ctx := *str.NewStringParserContextWithTag("ab", "tag")
	ctx.AstStack = make(p.AstSlice, 0, depth+spare)
	mk := func(i int) p.Ast {
		return p.Ast{ClassName: fmt.Sprint("c", i), OpCode: p.AstOpCodeType(i), Type: p.AstType_String, Value: fmt.Sprint("v", i), SourcePosition: at(i)}
	}
	for i := 0; i < depth; i++ {
		ctx.AstStack = append(ctx.AstStack, mk(i))
	}
	out, err := p.FlatGroup(fn, after)(ctx)
	w.Eval()
	w.Transitions(2)
	w.States(2)
	check := func(what string, l p.AstSlice) {
		for i := 0; i < depth; i++ {
			if l[i].ClassName != fmt.Sprint("c", i) || l[i].Value != fmt.Sprint("v", i) || l[i].SourcePosition != at(i) || l[i].OpCode != p.AstOpCodeType(i) {
				w.Fail("%s: entry %d became %v", what, i, l[i])
				return
			}
		}
	}
	// Look-behind and negative predicates turn some of the failing attempts into a mismatch of
	// the whole; then only the caller's entries are of interest.
	if out.MatchStatus == p.MatchStatus_Matched {
		if err != nil || len(out.AstStack) != depth+1 || out.Position != 0 || out.AstStack[depth].Value != "after" || out.Tag != "tag" {
			w.Fail("status %v err %v position %d stack %s, want %d entries and the new one", out.MatchStatus, err, out.Position, peg.Show(out.AstStack), depth)
			return
		}
		check("resulting stack", out.AstStack)
	} else {
		w.Fail("status %v err %v, want a match without consumption", out.MatchStatus, err)
	}
	check("caller's stack", ctx.AstStack)
}
