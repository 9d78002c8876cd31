package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

func ops05() []*peg.Op {
	return []*peg.Op{
		peg.Trap("a"), peg.Trap("b"), peg.AnyChar(), peg.Error("assert"),
		peg.Opt(1), peg.Star(1), peg.Plus(1), peg.Rep(1, 1, 2), peg.Group(1), peg.Lazy(), peg.First(1), peg.Erased(), peg.Concat(), peg.TransErr("bad"),
		peg.Ahead(1, false), peg.Ahead(1, true), peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 2, true),
		peg.Flat(2), peg.First(2), peg.Star(2), peg.Group(2), peg.Ahead(2, true),
	}
}

func ops05core() []*peg.Op {
	return []*peg.Op{peg.Trap("a"), peg.Trap("b"), peg.Star(1), peg.Ahead(1, true), peg.Behind(1, 1, 2, false), peg.Lazy(), peg.Flat(2), peg.First(2)}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C05", Level: "fault_enumeration",
		Rule:        "every term with trap leaves x every input: one run without fault to count the visits of traps, then one run for every visit and every one of 8 ways to raise an error there; a case is non-trivial when at least one fault fired",
		Bounds:      "terms of up to 4/5 nodes over 23 constructs and up to 6/7 over 8; inputs over {a,b} up to 3/4 symbols; 8 fault kinds; errors from production rules, acceptance patterns, match cases and nested transformers in 30 enclosing constructs; 16 kinds of error values from 21 sources in each of these constructs; error depth to 2000; errors at every member of 11 constructs of up to 33 members and in rounds up to 2049; terms of up to 3/4 nodes over sources of objects",
		Assumptions: []string{"an error status without an error value is an error too, reported with a nil value"},
		Run:         run05,
	})
}

func run05(r *kit.Run) {
	sz, core := 4, 6
	if r.Thorough {
		sz, core = 5, 7
	}
	faults := func(name string, sp *peg.Space, in []string, mk func(Variant, string, int) p.ParserContext) {
		if mk == nil {
			mk = func(v Variant, src string, pos int) p.ParserContext { return v.Context(src, pos, 5) }
		}
		r.Sub(name, sp.Len(), func(w *kit.W, i int) {
			inner := sp.At(i)
			// the root keeps going after the term if an error is swallowed
			any := peg.AnyChar()
			if name == "objects" {
				any = peg.ObjAny()
			}
			n := peg.N(peg.First(2), peg.N(peg.Flat(2), inner, peg.N(peg.Star(1), peg.N(any))), peg.N(peg.Star(1), peg.N(any)))
			n.Number()
			env := &peg.Env{}
			fn := n.Build(env)
			fired := false
			var src string
			w.Desc(func() string {
				return fmt.Sprintf("%v on %q, fault kind %d at visit %d", n, src, env.TrapKind, env.TrapAt)
			})
			for _, src = range in {
				env.TrapAt, env.MVisits, env.TrapKind = 0, 0, peg.TrapStatus
				base := peg.Eval(n, src, vPlain.State(0, 5), env, false)
				if base.Skip {
					w.Skip()
					continue
				}
				visits := env.MVisits
				for k := 0; k <= visits; k++ {
					for kind := 0; kind < peg.TrapKinds; kind++ {
						if k == 0 && kind > 0 {
							break
						}
						env.TrapAt, env.TrapKind = k, kind
						env.MVisits, env.Visits = 0, 0
						want := peg.Eval(n, src, vPlain.State(0, 5), env, false)
						if want.Skip {
							w.Skip()
							continue
						}
						v := vAll[(i+k+kind)%len(vAll)]
						want2 := want
						if v.Prefix > 0 {
							env.MVisits = 0
							want2 = peg.Eval(n, src, v.State(0, 5), env, false)
						}
						out, err := fn(mk(v, src, 0))
						w.Eval()
						if d := peg.Diff(out, err, want2); d != "" {
							w.Fail("%s", d)
							return
						}
						if env.Visits != env.MVisits {
							w.Fail("traps visited %d times, want %d", env.Visits, env.MVisits)
							return
						}
						if want2.St == peg.Err && want2.Msg == peg.TheTrap.Error() && kind != peg.TrapAssert {
							fired = true
							if err != error(peg.TheTrap) {
								w.Fail("error value %T %v is not the original", err, err)
								return
							}
						}
						w.See(uint64(want.St)<<8 | uint64(want.ErrPos)<<4 | uint64(kind))
					}
				}
			}
			if fired {
				w.Nontrivial()
			}
		})
	}
	in := words(3, "a", "b")
	if r.Thorough {
		in = words(4, "a", "b")
	}
	faults("all-constructs", peg.NewSpace(sz, ops05()...), in, nil)
	faults("core-deep", peg.NewSpace(core, ops05core()...), in, nil)
	faults("objects", peg.NewSpace(sz-1, objOps(ops05())...), in, objCtx)
	enclosed05(r)
}

// src05 reads "ab" and raises an error at a position of "xab".
type src05 struct {
	name string
	fn   p.ParserFn
	at   int
}

// sources05 are all the places an error can come from.
// wide05 raises an error at every member of constructs with up to 33 members, and in every
// iteration of long repetitions.
func wide05(r *kit.Run) {
	mine := &ptrErr{"the one"}
	raise := []struct {
		name string
		fn   p.ParserFn
	}{
		{"status and value", func(ctx p.ParserContext) (p.ParserContext, error) {
			ctx.MatchStatus = p.MatchStatus_Error
			return ctx, mine
		}},
		{"value only", p.LightBaseParser("l", func(ctx p.ParserContext) (p.ParserContext, error) { return ctx, mine })},
		{"transformer", p.Trans(p.Zero(), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return a, mine })},
		{"match", p.Match(1)(p.Case{If: p.TopIsAny, Let: []p.TransformerFn{func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return nil, mine }}})},
	}
	shapes := []struct {
		name   string
		choice bool // the members before do not match
		mk     func(k []p.ParserFn) p.ParserFn
	}{
		{"choice", true, func(k []p.ParserFn) p.ParserFn { return p.First(k...) }},
		{"sequence", false, func(k []p.ParserFn) p.ParserFn { return p.FlatGroup(k...) }},
		{"group", false, func(k []p.ParserFn) p.ParserFn { return p.Group(k...) }},
		{"star", false, func(k []p.ParserFn) p.ParserFn { return p.ZeroOrMoreTimes(k...) }},
		{"option", false, func(k []p.ParserFn) p.ParserFn { return p.ZeroOrOnce(k...) }},
		{"repetition", false, func(k []p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: 3, Max: 4}, k...) }},
		{"look-ahead", false, func(k []p.ParserFn) p.ParserFn { return p.LookAhead(k...) }},
		{"negative look-ahead", false, func(k []p.ParserFn) p.ParserFn { return p.LookAheadN(k...) }},
		{"look-behind", false, func(k []p.ParserFn) p.ParserFn { return p.LookBehind(0, 0, k...) }},
		{"negative look-behind", false, func(k []p.ParserFn) p.ParserFn { return p.LookBehindN(0, 1, k...) }},
		{"repeated choice", true, func(k []p.ParserFn) p.ParserFn {
			return p.BaseParser("c", nil, []interface{}{p.ThereExists{}, p.Times{Min: 0, Max: -1}}, k, nil)
		}},
	}
	const most = 33
	r.Sub("wide", len(raise)*len(shapes)*most*2, func(w *kit.W, i int) {
		after := i%2 == 1
		i /= 2
		e, s, n := raise[i%len(raise)], shapes[i/len(raise)%len(shapes)], i/len(raise)/len(shapes)+1
		for at := 0; at < n; at++ {
			var k []p.ParserFn
			for m := 0; m < n; m++ {
				switch {
				case m == at:
					k = append(k, e.fn)
				case s.choice && m%2 == 0:
					k = append(k, str.Seq("q"))
				case s.choice:
					k = append(k, p.FlatGroup(p.Zero(p.Ast{Value: "z"}), p.Unmatched()))
				default:
					k = append(k, p.Zero(p.Ast{Value: "z"}))
				}
			}
			fn := s.mk(k)
			if after {
				fn = p.First(p.FlatGroup(str.Seq("x"), fn), str.Any())
			} else {
				fn = p.ZeroOrOnce(p.FlatGroup(str.Any(), fn))
			}
			w.Descf("%s of %d, member %d raising by %s", s.name, n, at, e.name)
			out, err := fn(*str.NewStringParserContext("xab"))
			w.Eval()
			w.Nontrivial()
			if err != error(mine) || out.MatchStatus != p.MatchStatus_Error || out.Position != 1 {
				w.Fail("status %v, error %#v at %d, want %#v at 1", out.MatchStatus, err, out.Position, mine)
				return
			}
		}
		w.States(n)
	})
	rounds := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1022, 1023, 1024, 1025, 1100, 2049}
	r.Sub("rounds", len(rounds)*len(raise)*4, func(w *kit.W, i int) {
		n, e := rounds[i%len(rounds)], raise[i/len(rounds)%len(raise)]
		x := p.First(str.Seq("a"), p.FlatGroup(str.Seq("b"), e.fn))
		fn := []p.ParserFn{p.ZeroOrMoreTimes(x), p.ZeroOrMoreTimes(p.First(str.Seq("q"), p.Group(x))), p.LookAheadN(p.ZeroOrMoreTimes(x), str.Seq("q")), p.Repeat(p.Times{Min: 3000, Max: -1}, x)}[i/len(rounds)/len(raise)]
		w.Descf("%s after %d rounds, shape %d", e.name, n, i/len(rounds)/len(raise))
		out, err := fn(*str.NewStringParserContext(strings.Repeat("a", n) + "baa"))
		w.Eval()
		w.Nontrivial()
		if err != error(mine) || out.MatchStatus != p.MatchStatus_Error || out.Position != n+1 {
			w.Fail("status %v, error %#v at %d, want %#v at %d", out.MatchStatus, err, out.Position, mine, n+1)
		}
	})
}

func sources05(mine error) []src05 {
	failTr := func(p.ParserContext, p.AstSlice) (p.AstSlice, error) { return nil, mine }
	failRule := func(ctx p.ParserContext) (p.ParserContext, error) {
		ctx.MatchStatus = p.MatchStatus_Error
		return ctx, mine
	}
	softRule := func(ctx p.ParserContext) (p.ParserContext, error) { // error value with an unmatched status
		ctx.MatchStatus = p.MatchStatus_Unmatched
		return ctx, mine
	}
	accept1 := p.FlatGroup(p.Start(), obj.Any(), obj.End())
	lift := func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return p.AstSlice{a[0].Value.(p.Ast)}, nil }
	isB := obj.ObjClassFn(func(c interface{}) bool { return c.(p.Ast).Value == "b" })
	two := func() p.ParserFn { return p.FlatGroup(str.Seq("a"), str.Seq("b")) }
	return []src05{
		{"assertion", p.Error(mine.Error()), 1},
		{"assertion after reading", p.FlatGroup(two(), p.Error(mine.Error())), 3},
		{"transformer", p.Trans(two(), failTr), 3},
		{"second transformer", p.Trans(two(), p.Pop, failTr), 3},
		{"transformer of inner body", p.FlatGroup(p.Trans(str.Seq("a"), failTr), str.Seq("b")), 2},
		{"TransformError", p.Trans(two(), p.TransformError(mine.Error())), 3},
		{"production rule", p.Trans(two(), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{failRule}}}, accept1)), 3},
		{"production rule, soft status", p.Trans(two(), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{softRule}}}, accept1)), 3},
		{"production rule transformer", p.Trans(two(), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{p.Trans(isB, failTr)}}}, accept1)), 3},
		{"second precedence level", p.Trans(two(), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{p.Unmatched()}}, {Rules: []p.ParserFn{p.Trans(p.FlatGroup(p.Trans(isB, lift)), failTr)}, Rtol: true}}, accept1)), 3},
		{"match case", p.FlatGroup(two(), p.Match(1)(p.Case{If: p.TopIsStr("b"), Let: []p.TransformerFn{failTr}}, p.Case{If: p.TopIsAny})), 3},
		{"second match case", p.FlatGroup(two(), p.Match(1)(p.Case{If: p.TopIsStr("q")}, p.Case{If: p.TopIsAny, Let: []p.TransformerFn{p.Erase, failTr}})), 3},
		{"base parser function", p.BaseParser("x", func(nm, _ int, ctx p.ParserContext) (p.ParserContext, error) { return ctx, mine }, nil, []p.ParserFn{two()}, nil), 3},
		{"base parser final function", p.BaseParser("x", func(nm, _ int, ctx p.ParserContext) (p.ParserContext, error) {
			if nm < 0 {
				return ctx, mine
			}
			return ctx, nil
		}, nil, []p.ParserFn{two()}, nil), 3},
		{"base parser repeated function", p.BaseParser("x", func(nm, _ int, ctx p.ParserContext) (p.ParserContext, error) {
			if nm >= 0 && ctx.Quantity == 1 {
				return ctx, mine
			}
			return ctx, nil
		}, []interface{}{p.Times{Min: 0, Max: -1}}, []p.ParserFn{str.CharClass("a", "b")}, nil), 3},
		{"light parser, soft status", p.LightBaseParser("l", softRule), 1},
		{"light parser", p.LightBaseParser("l", failRule), 1},
		{"bare function, matched status", func(ctx p.ParserContext) (p.ParserContext, error) {
			ctx.MatchStatus = p.MatchStatus_Matched
			return ctx, mine
		}, 1},
		{"deferred", p.Indirect(func() p.ParserFn {
			return p.FlatGroup(str.Seq("a"), p.Indirect(func() p.ParserFn { return p.Error(mine.Error()) }))
		}), 2},
		{"concatenation of a non-string", p.Trans(p.FlatGroup(two(), p.Zero(p.Ast{Type: p.AstType_Int, Value: int64(1)})), str.Concat), 3},
		{"number conversion", p.Trans(two(), str.ParseInt), 3},
	}
}

// enclosed05 puts every kind of error source into every kind of enclosing construct.
func enclosed05(r *kit.Run) {
	mine := errors.New("mine")
	sources := sources05(mine)
	type encl struct {
		name string
		mk   func(x p.ParserFn) p.ParserFn
	}
	rest := func() p.ParserFn { return p.ZeroOrMoreTimes(str.Any()) }
	encls := []encl{
		{"first", func(x p.ParserFn) p.ParserFn { return p.First(x, rest()) }},
		{"first, later alternative", func(x p.ParserFn) p.ParserFn { return p.First(str.Seq("zz"), x, rest()) }},
		{"first of one", func(x p.ParserFn) p.ParserFn { return p.First(x) }},
		{"option", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(x), rest()) }},
		{"star", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrMoreTimes(x), rest()) }},
		{"plus", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.OneOrMoreTimes(x), rest()) }},
		{"once", func(x p.ParserFn) p.ParserFn { return p.Once(x) }},
		{"rep{2,3}", func(x p.ParserFn) p.ParserFn { return p.First(p.Repeat(p.Times{Min: 2, Max: 3}, x), rest()) }},
		{"rep without minimum", func(x p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: -1, Max: 3}, x) }},
		{"sequence", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.Zero(), x, rest()) }},
		{"group", func(x p.ParserFn) p.ParserFn { return p.Group(p.Zero(), x, rest()) }},
		{"look-ahead", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookAhead(x), rest()) }},
		{"negative look-ahead", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookAheadN(x), rest()) }},
		{"look-behind 0", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookBehind(0, 1, x), rest()) }},
		{"negative look-behind 0", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.LookBehindN(0, 1, x), rest()) }},
		{"look-behind later", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(str.Seq("a"), p.LookBehind(0, 2, p.FlatGroup(str.Seq("a"), p.LookBehind(1, 1, x))), rest())
		}},
		{"negative look-behind later", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(str.Seq("a"), str.Seq("b"), p.LookBehindN(2, 3, x), rest())
		}},
		{"deferred", func(x p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return x }) }},
		{"transformer around", func(x p.ParserFn) p.ParserFn {
			return p.Trans(x, func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				return nil, errors.New("transformer ran after an error")
			})
		}},
		{"negated base parser", func(x p.ParserFn) p.ParserFn {
			return p.BaseParser("n", nil, []interface{}{p.Negative{}}, []p.ParserFn{x}, nil)
		}},
		{"base parser with function", func(x p.ParserFn) p.ParserFn {
			return p.BaseParser("n", func(_, _ int, ctx p.ParserContext) (p.ParserContext, error) {
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			}, nil, []p.ParserFn{x}, nil)
		}},
		{"optional, rewinding, negated base parser", func(x p.ParserFn) p.ParserFn {
			return p.BaseParser("n", nil, []interface{}{p.Times{Min: 0, Max: 1}, p.Rewind{}, p.Negative{}, p.ThereExists{}}, []p.ParserFn{x}, nil)
		}},
		{"light parser around", func(x p.ParserFn) p.ParserFn { return p.LightBaseParser("l", p.LightParserImplFn(x)) }},
		{"if", func(x p.ParserFn) p.ParserFn { return p.If(true, x, nil) }},
		{"choice in star in option", func(x p.ParserFn) p.ParserFn {
			return p.FlatGroup(p.ZeroOrOnce(p.ZeroOrMoreTimes(p.First(str.Seq("q"), x, str.Any()))), rest())
		}},
		{"predicate in predicate", func(x p.ParserFn) p.ParserFn { return p.First(p.LookAheadN(p.LookAheadN(x)), rest()) }},
		{"50 deep", func(x p.ParserFn) p.ParserFn {
			for i := 0; i < 50; i++ {
				x = p.First(p.ZeroOrOnce(p.Group(x)), rest())
			}
			return x
		}},
		{"2000 deep", func(x p.ParserFn) p.ParserFn {
			for i := 0; i < 2000; i++ {
				x = p.First(x, rest())
			}
			return x
		}},
	}
	ne := len(encls)
	r.Sub("sources-in-constructs", len(sources)*ne*ne, func(w *kit.W, i int) {
		s, e1, e2 := sources[i/ne/ne], encls[i/ne%ne], encls[i%ne]
		if strings.Contains(e1.name, "later") && strings.Contains(e2.name, "later") {
			w.Skip() // the inner look-behind would start elsewhere
			return
		}
		w.Descf("%s in %s in %s", s.name, e1.name, e2.name)
		fn := p.FlatGroup(str.Seq("x"), p.First(p.FlatGroup(e2.mk(e1.mk(s.fn)), rest()), rest()))
		text := "xab"
		out, err := fn(*str.NewStringParserContext(text))
		w.Eval()
		w.Nontrivial()
		if err == nil || err.Error() != mine.Error() && !strings.Contains(err.Error(), "Transformer:") {
			w.Fail("err %v status %v, want the error %v", err, out.MatchStatus, mine)
			return
		}
		if out.MatchStatus != p.MatchStatus_Error {
			w.Fail("status %v with error %v", out.MatchStatus, err)
			return
		}
		if out.Position != s.at {
			w.Fail("error reported at %d, raised at %d", out.Position, s.at)
		}
		w.SeeStr(fmt.Sprint(err, out.Position))
	})
	// the value of an error makes no difference, and it arrives as it is
	values := []struct {
		name string
		err  error
	}{
		{"an empty message", errors.New("")}, {"io.EOF", io.EOF}, {"io.ErrUnexpectedEOF", io.ErrUnexpectedEOF}, {"context.Canceled", context.Canceled}, {"context.DeadlineExceeded", context.DeadlineExceeded},
		{"fs.ErrNotExist", fs.ErrNotExist}, {"a nil pointer of an error type", (*ptrErr)(nil)}, {"a pointer of an error type", &ptrErr{"p"}}, {"a value of an error type", valErr{}}, {"a wrapped error", fmt.Errorf("w: %w", io.EOF)},
		{"a blank message", errors.New(" ")}, {"a message of two lines", errors.New("one\ntwo")}, {"unmatched", errors.New("Unmatched")}, {"a long message", errors.New(strings.Repeat("long ", 500))}, {"strconv.ErrRange", strconv.ErrRange}, {"an error of the production rules", errors.New("Production rules are not matched.")},
	}
	ns := len(sources)
	r.Sub("error-values", len(values)*ns*ne, func(w *kit.W, i int) {
		v, e := values[i/ns/ne], encls[i%ne]
		s := sources05(v.err)[i/ne%ns]
		w.Descf("%s raising %s in %s", s.name, v.name, e.name)
		fn := p.FlatGroup(str.Seq("x"), p.First(p.FlatGroup(e.mk(s.fn), rest()), rest()))
		out, err := fn(*str.NewStringParserContext("xab"))
		w.Eval()
		w.Nontrivial()
		same := err == v.err
		switch s.name {
		case "assertion", "assertion after reading", "TransformError", "deferred":
			same = err != nil && err.Error() == v.err.Error()
		case "concatenation of a non-string", "number conversion":
			same = err != nil && strings.Contains(err.Error(), "Transformer:")
		}
		if !same || out.MatchStatus != p.MatchStatus_Error || out.Position != s.at {
			w.Fail("status %v, error %#v at %d, want %#v at %d", out.MatchStatus, err, out.Position, v.err, s.at)
		}
		w.See(uint64(i))
	})
	alone05(r)
	rules05(r)
	wide05(r)
	// a transformer chain stops at its first error
	r.Sub("transformer-chain", 6*6, func(w *kit.W, i int) {
		n, at := i/6+1, i%6
		if at >= n {
			w.Skip()
			return
		}
		w.Descf("chain of %d, error in number %d", n, at)
		var calls []int
		var trs []p.TransformerFn
		var errs []error
		for k := 0; k < n; k++ {
			errs = append(errs, fmt.Errorf("e%d", k))
		}
		for k := 0; k < n; k++ {
			k := k
			trs = append(trs, func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				calls = append(calls, k)
				if k >= at {
					return [...]p.AstSlice{a, nil, {{}}, {{}, {}, {}}}[(k+n)%4], errs[k]
				}
				return a, nil
			})
		}
		one := p.Case{If: p.TopIsAny, Let: trs}
		none := p.Case{If: func(p.AstSlice) bool { return false }, Let: trs}
		last := p.Case{If: p.TopIsAny}
		match := func(n int, cs ...p.Case) p.ParserFn { return p.FlatGroup(str.Seq("ab"), p.Match(n)(cs...)) }
		ab := func() p.ParserFn { return p.FlatGroup(str.Seq("a"), str.Seq("b")) }
		for mode, fn := range []p.ParserFn{p.Trans(str.Seq("ab"), trs...), p.Trans(ab(), trs...), p.Trans(p.Group(ab()), trs...), p.Trans(p.OneOrMoreTimes(str.CharClass("a", "b")), trs...), p.Trans(p.Trans(ab(), trs...)),
			match(1, one), match(0, one), match(2, none, one), match(1, one, last), match(2, none, one, last), match(1, one, one)} {
			for k, in := range []string{"ab", "abc"} {
				for start := 0; start < 2; start++ {
					calls = nil
					ctx := p.ParserContext{Str: strings.Repeat("\n", start*3) + in, AstStack: p.AstSlice{prefixAst(0), prefixAst(1)}[: start : start+k]}
					ctx.Position, ctx.Length = start*3, 9
					out, err := p.First(p.ZeroOrMoreTimes(fn), str.Any())(ctx)
					w.Eval()
					if err == nil || err != errs[at] || len(calls) != at+1 || out.MatchStatus != p.MatchStatus_Error {
						w.Fail("mode %d: err %v, calls %v", mode, err, calls)
						return
					}
					if out.Position != start*3+2 {
						w.Fail("mode %d: reported at %d, raised at %d", mode, out.Position, start*3+2)
						return
					}
				}
			}
		}
		w.Nontrivial()
	})
}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string {
	if e == nil {
		return "nil"
	}
	return e.s
}

type valErr struct{}

func (valErr) Error() string { return "value" }

// alone05 calls user parsers that raise an error directly, whatever status they leave behind.
func alone05(r *kit.Run) {
	statuses := []p.MatchStatusType{p.MatchStatus_Matched, p.MatchStatus_Unmatched, p.MatchStatus_Error}
	const shapes = 9
	r.Sub("user-parsers-alone", len(statuses)*shapes*3*len(vAll), func(w *kit.W, i int) {
		st, shape, pos, v := statuses[i%3], i/3%shapes, i/3/shapes%3, vAll[i/9/shapes]
		mine := fmt.Errorf("mine %d", i)
		raise := func(ctx p.ParserContext) (p.ParserContext, error) {
			if ctx.Position < len(ctx.Str) {
				ctx.Position++
			}
			ctx.MatchStatus = st
			return ctx, mine
		}
		light := p.LightBaseParser("user", raise)
		var fn p.ParserFn
		name := ""
		switch shape {
		case 0:
			name, fn = "light parser", light
		case 1:
			name, fn = "deferred light parser", p.Indirect(func() p.ParserFn { return light })
		case 2:
			name, fn = "deferred twice", p.Indirect(func() p.ParserFn { return p.Indirect(func() p.ParserFn { return raise }) })
		case 3:
			name, fn = "sequence of a bare function", p.FlatGroup(raise)
		case 4:
			name, fn = "base parser function", p.BaseParser("user", func(n, _ int, ctx p.ParserContext) (p.ParserContext, error) { return raise(ctx) }, nil, nil, nil)
		case 5:
			name, fn = "base parser final function", p.BaseParser("user", func(n, _ int, ctx p.ParserContext) (p.ParserContext, error) {
				if n >= 0 {
					return ctx, nil
				}
				return raise(ctx)
			}, nil, nil, nil)
		case 6:
			name, fn = "rewinding base parser", p.BaseParser("user", nil, []interface{}{p.Rewind{}, p.Negative{}}, []p.ParserFn{light}, nil)
		case 7:
			name, fn = "look-behind", p.LookBehind(0, 0, raise)
		case 8:
			name, fn = "if", p.If(false, nil, light)
		}
		w.Descf("%s raising an error with status %v at %d (%s)", name, st, pos, v.Name)
		out, err := fn(v.Context("ab", pos, 5))
		w.Eval()
		w.Nontrivial()
		at := pos + 1
		if at > 2 {
			at = 2
		}
		if err != mine || out.MatchStatus != p.MatchStatus_Error || out.Position != at {
			w.Fail("status %v, error %v, position %d; want the error %v at %d", out.MatchStatus, err, out.Position, mine, at)
		}
		w.See(uint64(i))
	})
}

// rules05 lets production rules raise errors in every place of a rule set.
func rules05(r *kit.Run) {
	lift := func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return p.AstSlice{a[0].Value.(p.Ast)}, nil }
	// every kind of rule needs `need` tokens from the position on; it fails with an error, or rewrites two tokens into the first
	type kind struct {
		name string
		need int
		fail bool
		mk   func(e error) p.ParserFn
	}
	raise := func(e error, st p.MatchStatusType) p.ParserFn {
		return func(ctx p.ParserContext) (p.ParserContext, error) {
			ctx.MatchStatus = st
			return ctx, e
		}
	}
	kinds := []kind{
		{"never", 0, false, func(error) p.ParserFn { return p.Unmatched() }},
		{"two into one", 2, false, func(error) p.ParserFn { return p.Trans(p.FlatGroup(obj.Any(), obj.Any()), lift) }},
		{"error at once", 0, true, func(e error) p.ParserFn { return raise(e, p.MatchStatus_Error) }},
		{"error assertion after one", 1, true, func(e error) p.ParserFn { return p.FlatGroup(obj.Any(), p.Error(e.Error())) }},
		{"matched status after two", 2, true, func(e error) p.ParserFn { return p.FlatGroup(obj.Any(), obj.Any(), raise(e, p.MatchStatus_Matched)) }},
		{"unmatched status after one", 1, true, func(e error) p.ParserFn {
			return p.First(p.FlatGroup(obj.Any(), raise(e, p.MatchStatus_Unmatched)), p.Unmatched())
		}},
		{"transformer after two", 2, true, func(e error) p.ParserFn {
			return p.Trans(p.FlatGroup(obj.Any(), obj.Any()), func(p.ParserContext, p.AstSlice) (p.AstSlice, error) { return nil, e })
		}},
		{"error status without an error value after one", 1, true, func(error) p.ParserFn {
			return p.FlatGroup(obj.Any(), raise(nil, p.MatchStatus_Error))
		}},
	}
	const someError = "some error"
	nk := len(kinds)
	n := nk * nk * nk * nk * 2 * 2 * 4
	// An acceptance pattern that raises an error accepts nothing.
	type acc struct {
		name string
		mk   func(e error) p.ParserFn
		ok   func(n int) bool // lists that may come out as accepted
	}
	none := func(int) bool { return false }
	accs := []acc{
		{"assertion", func(e error) p.ParserFn { return p.Error(e.Error()) }, none},
		{"matched status", func(e error) p.ParserFn { return raise(e, p.MatchStatus_Matched) }, none},
		{"unmatched status", func(e error) p.ParserFn { return raise(e, p.MatchStatus_Unmatched) }, none},
		{"error status", func(e error) p.ParserFn { return raise(e, p.MatchStatus_Error) }, none},
		{"assertion after one", func(e error) p.ParserFn { return p.FlatGroup(p.Start(), obj.Any(), p.Error(e.Error())) }, none},
		{"transformer after all", func(e error) p.ParserFn {
			return p.Trans(p.FlatGroup(p.Start(), p.ZeroOrMoreTimes(obj.Any()), obj.End()), p.TransformError(e.Error()))
		}, none},
		{"user parser, matched status", func(e error) p.ParserFn {
			return p.LightBaseParser("acc", p.LightParserImplFn(raise(e, p.MatchStatus_Matched)))
		}, none},
		{"error for two or more", func(e error) p.ParserFn {
			return p.First(p.FlatGroup(obj.Any(), obj.Any(), p.Error(e.Error())), p.FlatGroup(obj.Any(), obj.End()))
		}, func(n int) bool { return n == 1 }},
		{"error for one", func(e error) p.ParserFn {
			return p.First(p.FlatGroup(obj.Any(), obj.End(), p.Error(e.Error())), obj.Any())
		}, func(n int) bool { return n > 1 }},
	}
	r.Sub("acceptance-errors", len(accs)*6*6*2, func(w *kit.W, i int) {
		a, tokens, rules, rtol := accs[i%len(accs)], i/len(accs)%6, i/len(accs)/6%6, i/len(accs)/36 == 1
		e := errors.New("acceptance")
		fold := p.Trans(p.FlatGroup(obj.Any(), obj.Any()), lift)
		precs := [][]p.Precedence{nil, {{}}, {{Rules: []p.ParserFn{p.Unmatched()}, Rtol: rtol}}, {{Rules: []p.ParserFn{fold}, Rtol: rtol}},
			{{Rules: []p.ParserFn{p.Unmatched()}}, {Rules: []p.ParserFn{fold}, Rtol: rtol}}, {{Rules: []p.ParserFn{p.Trans(p.FlatGroup(obj.Any(), obj.Any(), obj.Any()), lift), p.Unmatched()}, Rtol: rtol}}}[rules]
		w.Descf("%d tokens, rules %d, right to left %v, acceptance pattern: %s", tokens, rules, rtol, a.name)
		var l p.AstSlice
		for k := 0; k < tokens; k++ {
			l = append(l, tok21('a', k+1))
		}
		out, err := p.ProductionRule(precs, a.mk(e))(p.ParserContext{}, l)
		w.Eval()
		w.States(tokens + 1)
		if err == nil && !a.ok(len(out)) {
			w.Fail("accepted %s although the acceptance pattern raised an error or did not match", names21(out))
			return
		}
		// the same in a transformer: an error of the whole parse
		if err != nil {
			src := p.FlatGroup(p.Zero(l...), p.Zero())
			o, er := p.First(p.Trans(src, p.ProductionRule(precs, a.mk(e))), p.Zero())(*str.NewStringParserContext("x"))
			if er == nil || o.MatchStatus != p.MatchStatus_Error {
				w.Fail("error %v of the rules became %v, %v", err, o.MatchStatus, er)
			}
		}
		w.Nontrivial()
	})
	r.Sub("rule-sets", n, func(w *kit.W, i int) {
		j := i
		tokens := j % 4
		j /= 4
		layout := j % 2 // one level of four rules, or two levels of two
		j /= 2
		rtol := j%2 == 1
		j /= 2
		var ks []kind
		var errs []error
		var fns []p.ParserFn
		for x := 0; x < 4; x++ {
			k := kinds[j%nk]
			e := fmt.Errorf("rule %d", x)
			if k.name == "error status without an error value after one" {
				e = errors.New(someError)
			}
			ks, errs, fns = append(ks, k), append(errs, e), append(fns, k.mk(e))
			j /= nk
		}
		var precs []p.Precedence
		var levels [][]int
		if layout == 0 {
			precs, levels = []p.Precedence{{Rules: fns, Rtol: rtol}}, [][]int{{0, 1, 2, 3}}
		} else {
			precs, levels = []p.Precedence{{Rules: fns[:2], Rtol: rtol}, {Rules: fns[2:], Rtol: !rtol}}, [][]int{{0, 1}, {2, 3}}
		}
		w.Desc(func() string {
			return fmt.Sprintf("%d tokens, levels %v of %s, %s, %s, %s, right to left %v", tokens, levels, ks[0].name, ks[1].name, ks[2].name, ks[3].name, rtol)
		})
		// reference
		const notMatched = "Production rules are not matched."
		want := ""
		left := tokens
	rounds:
		for left != 1 {
			for l, lv := range levels {
				for q := 0; q <= left; q++ {
					pos := q
					if precs[l].Rtol {
						pos = left - q
					}
					for _, x := range lv {
						if ks[x].name == "never" || left-pos < ks[x].need {
							continue
						}
						if ks[x].fail {
							want = errs[x].Error()
							break rounds
						}
						left--
						continue rounds
					}
				}
			}
			want = notMatched
			break
		}
		if tokens == 1 {
			// the rules run before the acceptance pattern is tried
			for l, lv := range levels {
				for q := 0; q <= 1 && want == ""; q++ {
					pos := q
					if precs[l].Rtol {
						pos = 1 - q
					}
					for _, x := range lv {
						if ks[x].fail && 1-pos >= ks[x].need && want == "" {
							want = errs[x].Error()
						}
					}
				}
			}
		}
		body := p.Repeat(p.Times{Min: 0, Max: tokens}, str.Any())
		out, err := p.First(p.Trans(body, p.ProductionRule(precs, p.FlatGroup(p.Start(), obj.Any(), obj.End()))), str.Any())(*str.NewStringParserContext("abcd"))
		w.Eval()
		switch {
		case want == "":
			if err != nil || out.MatchStatus != p.MatchStatus_Matched {
				w.Fail("status %v, error %v; want a match", out.MatchStatus, err)
			}
		case err == nil || out.MatchStatus != p.MatchStatus_Error:
			w.Fail("status %v, error %v; want error %s", out.MatchStatus, err, want)
		case err.Error() != want && want != notMatched && want != someError:
			w.Fail("error %v, want %s", err, want)
		default:
			w.Nontrivial()
		}
		w.SeeStr(want)
	})
}
