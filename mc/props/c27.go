package props

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C27", Level: "model_checking",
		Bounds: "every term of up to 4 (thorough 5) nodes over 22 constructs, with leaves that match, fail, raise errors and panic with values of 13 kinds, and of up to 3 nodes over 48 constructs, traced, on all inputs over {a,b} up to 3 (4) symbols: result compared with the untraced parser, the full event log with the reference machine's; traced terms nested in traced terms and in untraced ones to depth 3 with several tracers, and along paths of up to 40 scopes with names of up to 300 characters; every pair of the 58 constructors of parsers built while tracing; whole literal, number, date and rewriting parsers traced and untraced on all short texts",
		Assumptions: []string{
			"parsers are not built by several goroutines while tracing is being set up (documented as not thread safe)",
			"events of parsers of classes the model does not know are only required to be nested and paired",
			"what an unmatched result carries besides its status is undefined",
		},
		Run: run27,
	})
}

// Tracing is switched by package variables while parsers are built.
var buildMu27 sync.RWMutex

type ev27 struct {
	kind  byte // B, A, P
	scope string
	no    int
	class string
	pos   int
	n     int
	st    p.MatchStatusType
	err   error
	val   interface{}
	who   string
}

func (e ev27) String() string {
	return fmt.Sprintf("%c %s#%d %s @%d/%d %v %v %v", e.kind, e.scope, e.no, e.class, e.pos, e.n, e.st, e.err, e.val)
}

type tracer27 struct {
	who string
	log *[]ev27
}

func (t tracer27) Before(scope string, no int, class string, ctx *p.ParserContext) {
	*t.log = append(*t.log, ev27{kind: 'B', scope: scope, no: no, class: class, pos: ctx.Position, n: len(ctx.AstStack), who: t.who})
}

func (t tracer27) After(scope string, no int, class string, ctx *p.ParserContext, err error) {
	*t.log = append(*t.log, ev27{kind: 'A', scope: scope, no: no, class: class, pos: ctx.Position, n: len(ctx.AstStack), st: ctx.MatchStatus, err: err, who: t.who})
}

func (t tracer27) Panic(scope string, no int, class string, ctx *p.ParserContext, r interface{}) {
	*t.log = append(*t.log, ev27{kind: 'P', scope: scope, no: no, class: class, val: r, who: t.who})
}

func showLog27(l []ev27) string {
	var s []string
	for _, e := range l {
		s = append(s, e.String())
	}
	return strings.Join(s, "\n      ")
}

// wellFormed27 checks that events nest and pair, and that identities are stable.
func wellFormed27(l []ev27) string {
	type id struct{ class, scope, who string }
	ids := map[int]id{}
	var open []ev27
	for _, e := range l {
		k := id{e.class, e.scope, e.who}
		if o, ok := ids[e.no]; ok && o != k {
			return fmt.Sprintf("number %d is used for %v and %v", e.no, o, k)
		}
		ids[e.no] = k
		if e.kind == 'B' {
			open = append(open, e)
			continue
		}
		if len(open) == 0 {
			return "unexpected " + e.String()
		}
		b := open[len(open)-1]
		if b.no != e.no || b.who != e.who {
			return fmt.Sprintf("%v ends inside %v", e, b)
		}
		open = open[:len(open)-1]
	}
	if len(open) > 0 {
		return "no end of " + open[len(open)-1].String()
	}
	return ""
}

type boom27 struct{ pos int }

type errBoom27 struct{ list []int }

func (e errBoom27) Error() string { return fmt.Sprint("errBoom27", e.list) }

// booms27 are the kinds of panic values; the last ones are raised by the runtime.
func booms27() []interface{} {
	n := 1
	var np *int
	e := errors.New("boom")
	return []interface{}{boom27{1}, e, "boom", &n, 42, errBoom27{[]int{1}}, fmt.Errorf("wrapped: %w", e), np, []int{1, 2}, p.Ast{ClassName: "x", Value: []int{1}}, rt27("index"), rt27("nil map"), rt27("division")}
}

type rt27 string

func raise27(v interface{}) {
	k, ok := v.(rt27)
	if !ok {
		panic(v)
	}
	var l []int
	var m map[string]int
	n := 0
	switch k {
	case "index":
		_ = l[n]
	case "nil map":
		m["a"] = 1
	default:
		_ = 1 / n
	}
}

// same27 compares panic values: the same object, not one that prints alike.
func same27(got, want interface{}) bool {
	if k, ok := want.(rt27); ok {
		e, ok := got.(runtime.Error)
		return ok && strings.Contains(e.Error(), map[rt27]string{"index": "index out of range", "nil map": "nil map", "division": "divide by zero"}[k])
	}
	return reflect.DeepEqual(got, want) && (reflect.TypeOf(want) == nil || !reflect.TypeOf(want).Comparable() || !comparable27(want) || got == want)
}

func comparable27(v interface{}) (ok bool) {
	defer func() { recover() }()
	return v == v
}

// boom is a leaf that panics in front of b and else fails to match.
func boomOp27(val interface{}) *peg.Op {
	return &peg.Op{Name: "boom", Class: "boom",
		Build: func(*peg.Env, []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("boom", func(ctx p.ParserContext) (p.ParserContext, error) {
				if strings.HasPrefix(ctx.Str[ctx.Position:], "b") {
					raise27(val)
				}
				ctx.MatchStatus = p.MatchStatus_Unmatched
				return ctx, nil
			})
		},
		Eval: func(m *peg.M, n *peg.Node, s peg.S) (peg.Status, peg.S) {
			if strings.HasPrefix(m.Src[s.Pos:], "b") {
				panic(boom27{-1})
			}
			return peg.No, s
		}}
}

func run27(r *kit.Run) {
	classes := func(val interface{}) []*peg.Op {
		return []*peg.Op{
			peg.Seq("a"), peg.AnyChar(), peg.Zero("zero", strR("z", "z")), peg.Error("err"), peg.End(), boomOp27(val),
			peg.Opt(1), peg.Star(1), peg.Plus(1), peg.Rep(1, 1, 2), peg.Group(1), peg.Ahead(1, false), peg.Ahead(1, true),
			peg.Behind(1, 1, 1, false), peg.Behind(1, 0, 2, true), peg.Lazy(), peg.Concat(), peg.TransErr("bad"),
			peg.Flat(2), peg.First(2), peg.Group(2), peg.Star(2),
		}
	}
	small := func(val interface{}) []*peg.Op {
		return append([]*peg.Op{boomOp27(val), peg.Error("err"), peg.MatchTop(2, "a", "m"), peg.TagInc("")}, ops02()...)
	}
	vals := booms27()
	sz, in := 4, 3
	if r.Thorough {
		sz, in = 5, 4
	}
	check27(r, "terms", sz, words(in, "a", "b"), classes, vals, 0)
	check27(r, "constructs", 3, words(3, "a", "b"), small, vals, 0)
	for k := range vals {
		check27(r, fmt.Sprintf("panics %d %T", k, vals[k]), 3, words(2, "a", "b"), classes, vals, k)
	}
	deferred27(r)
	pairs27(r)
	scopes27(r)
	library27(r)
}

// deferred27: what a builder makes during a parse is made outside of any traced construction.
func deferred27(r *kit.Run) {
	r.Sub("deferred", 6*3*3, func(w *kit.W, i int) {
		first, nest, calls := i%6, i/6%3, i/18
		w.Descf("deferred parser built during the parse (%d traced scopes around it, use %d, kind %d)", nest, calls, first)
		var log []ev27
		inner := []func() p.ParserFn{
			func() p.ParserFn { return p.FlatGroup(str.Seq("a"), str.Seq("b")) },
			func() p.ParserFn { return str.Any() },
			func() p.ParserFn { return p.Indirect(func() p.ParserFn { return p.OneOrMoreTimes(str.Any()) }) },
			func() p.ParserFn { return p.First(p.Unmatched(), p.Trans(str.Seq("a"), str.Trim)) },
			func() p.ParserFn { return p.FlatGroup(p.LookAhead(str.Seq("a")), extra.AsciiIdentifierStr()) },
			func() p.ParserFn { return p.Group(p.Zero(), p.Match(1)(), str.Seq("a")) },
		}[first]
		buildMu27.Lock()
		defer buildMu27.Unlock()
		fn := p.ParserFn(nil)
		mk := func() p.ParserFn { return p.Indirect(inner) }
		switch nest {
		case 0:
			fn = p.FlatGroup(mk())
		case 1:
			fn = p.DebugTrace("s", tracer27{"t", &log})(mk())
		case 2:
			fn = p.DebugTrace("s", tracer27{"t", &log})(p.DebugTrace("u", tracer27{"t", &log})(mk()))
		}
		want := p.FlatGroup(inner())
		for k := 0; k <= calls; k++ {
			log = log[:0]
			out, err := fn(*str.NewStringParserContext("ab"))
			o2, err2 := want(*str.NewStringParserContext("ab"))
			w.Eval()
			w.States(1)
			w.Transitions(len(log))
			if a, b := showOut(out, err)(), showOut(o2, err2)(); a != b {
				w.Fail("traced result %s\n   untraced %s", a, b)
				return
			}
			if m := wellFormed27(log); m != "" {
				w.Fail("%s\n      %s", m, showLog27(log))
				return
			}
			// the scopes' own parsers and the deferred one
			if n := 2 * (nest + 1); nest == 0 && len(log) != 0 || nest > 0 && len(log) != n {
				w.Fail("%d events: %s", len(log), showLog27(log))
				return
			}
		}
		w.Nontrivial()
	})
}

// check27 explores all terms; the panic values take turns, starting with number first.
func check27(r *kit.Run, name string, sz int, inputs []string, classes func(interface{}) []*peg.Op, vals []interface{}, first int) {
	known := map[string]bool{}
	for _, o := range classes(nil) {
		known[o.Class] = true
	}
	var sps []*peg.Space
	for _, v := range vals {
		sps = append(sps, peg.NewSpace(sz, classes(v)...))
	}
	r.Sub(name, sps[0].Len(), func(w *kit.W, i int) {
		k := first
		if first == 0 {
			k = i % len(vals)
		}
		sp, val := sps[k], vals[k]
		n := sp.At(i)
		n.Number()
		env := &peg.Env{}
		var log []ev27
		buildMu27.Lock()
		plain := p.FlatGroup(n.Build(env))
		traced := p.DebugTrace("s", tracer27{"t", &log})(n.Build(env))
		after := p.FlatGroup(n.Build(env))
		buildMu27.Unlock()
		numbers := map[*peg.Node]int{}
		var src string
		w.Desc(func() string { return fmt.Sprintf("%v on %q", n, src) })
		buildMu27.RLock()
		defer buildMu27.RUnlock()
		for _, src = range inputs {
			// model
			m := &peg.M{Src: src, Env: env}
			var mlog []peg.Event
			m.Trace = func(ev peg.Event) { mlog = append(mlog, ev) }
			var want peg.Result
			var boom interface{}
			func() {
				defer func() {
					if x := recover(); x != nil {
						b, ok := x.(boom27)
						if !ok {
							panic(x)
						}
						_, boom = b, val
					}
				}()
				want = m.Go(n, vPlain.State(0, 5))
			}()
			w.States(len(mlog))
			w.Transitions(m.Steps)
			if want.Skip {
				w.Skip()
				continue
			}
			call := func(fn p.ParserFn) (out p.ParserContext, err error, x interface{}) {
				defer func() { x = recover() }()
				out, err = fn(vPlain.Context(src, 0, 5))
				return
			}
			log = log[:0]
			out, err, x := call(traced)
			w.Eval()
			events := append([]ev27{}, log...)
			log = log[:0]
			for k, fn := range []p.ParserFn{plain, after} {
				o2, err2, x2 := call(fn)
				if len(log) > 0 {
					w.Fail("a parser built %s the traced construction is traced: %s", []string{"before", "after"}[k], showLog27(log))
					return
				}
				if (x2 == nil) != (x == nil) || x != nil && !same27(x2, val) {
					w.Fail("panic %v, untraced %v", x, x2)
					return
				}
				if x == nil {
					if a, b := showOut(out, err)(), showOut(o2, err2)(); a != b {
						w.Fail("traced result %s\n   untraced %s", a, b)
						return
					}
				}
			}
			if (x == nil) != (boom == nil) || x != nil && !same27(x, val) {
				w.Fail("panic %v, want %v", x, boom)
				return
			}
			if x == nil {
				if d := peg.Diff(out, err, want); d != "" {
					w.Fail("%s", d)
					return
				}
			}
			if m := wellFormed27(events); m != "" {
				w.Fail("%s\n      %s", m, showLog27(events))
				return
			}
			// compare with the model's log
			var got []ev27
			for _, e := range events {
				if e.who != "t" || e.scope != "/s" {
					w.Fail("scope %q: %v", e.scope, e)
					return
				}
				if known[e.class] {
					got = append(got, e)
				}
			}
			var open []peg.Event
			k := 0
			for ; k < len(mlog) && k < len(got); k++ {
				me, e := mlog[k], got[k]
				if me.Before {
					open = append(open, me)
				} else {
					open = open[:len(open)-1]
				}
				bad := e.class != me.Class || (e.kind == 'B') != me.Before || e.kind == 'P'
				if me.Before {
					bad = bad || e.pos != me.Pos || e.n != me.N
				} else {
					bad = bad || e.st != p.MatchStatusType(me.St) || (e.err != nil) != (me.St == peg.Err) || me.St != peg.No && e.pos != me.Pos || me.St == peg.OK && e.n != me.N
				}
				if no, ok := numbers[me.Node]; ok && no != e.no {
					bad = true
				}
				numbers[me.Node] = e.no
				if bad {
					w.Fail("event %d is %v, want %+v of node %v\n      %s", k, e, me, me.Node, showLog27(got))
					return
				}
			}
			if boom != nil {
				// every open parser reports the panic, innermost first
				for ; len(open) > 0 && k < len(got); k++ {
					me, e := open[len(open)-1], got[k]
					open = open[:len(open)-1]
					if e.kind != 'P' || e.class != me.Class || !same27(e.val, val) || e.no != numbers[me.Node] {
						w.Fail("event %d is %v, want a panic event of %v\n      %s", k, e, me.Node, showLog27(got))
						return
					}
				}
			}
			if len(open) > 0 || k != len(got) || k < len(mlog) {
				w.Fail("%d events, want %d (%d parsers left open)\n      %s", len(got), len(mlog), len(open), showLog27(got))
				return
			}
			seen := map[int]*peg.Node{}
			for nd, no := range numbers {
				if o := seen[no]; o != nil && o != nd {
					w.Fail("two parsers have number %d: %v and %v", no, o, nd)
					return
				}
				seen[no] = nd
			}
			w.Nontrivial()
			w.SeeStr(showLog27(got))
		}
	})
}

// pairs27 builds every pair of the library's parsers while tracing: each one has its own number.
func pairs27(r *kit.Run) {
	leaf := func() p.ParserFn { return str.Seq("q") }
	one := p.Times{Min: 1, Max: 2}
	mks := []struct {
		name  string
		class string // asserted when not empty
		build func() p.ParserFn
	}{
		{"LightBaseParser", "mine", func() p.ParserFn {
			return p.LightBaseParser("mine", func(c p.ParserContext) (p.ParserContext, error) { return c, nil })
		}},
		{"BaseParser", "mine too", func() p.ParserFn { return p.BaseParser("mine too", nil, nil, nil, nil) }},
		{"LightBaseParser without class", "", func() p.ParserFn {
			return p.LightBaseParser("", func(c p.ParserContext) (p.ParserContext, error) { return c, nil })
		}},
		{"Match", "", func() p.ParserFn { return p.Match(1)(p.Case{If: p.TopIsAny, Let: nil}) }},
		{"Match0", "", func() p.ParserFn { return p.Match(0)() }},
		{"Indirect", "", func() p.ParserFn { return p.Indirect(func() p.ParserFn { return p.Start() }) }},
		{"Error", "", func() p.ParserFn { return p.Error("e") }}, {"Unmatched", "", p.Unmatched},
		{"Zero", "", func() p.ParserFn { return p.Zero() }}, {"Start", "", p.Start},
		{"FlatGroup", "", func() p.ParserFn { return p.FlatGroup(leaf()) }}, {"FlatGroup0", "", func() p.ParserFn { return p.FlatGroup() }},
		{"Group", "", func() p.ParserFn { return p.Group(leaf()) }}, {"First", "", func() p.ParserFn { return p.First(leaf(), leaf()) }},
		{"LookAhead", "", func() p.ParserFn { return p.LookAhead(leaf()) }}, {"LookAheadN", "", func() p.ParserFn { return p.LookAheadN(leaf()) }},
		{"LookBehind", "", func() p.ParserFn { return p.LookBehind(1, 1, leaf()) }}, {"LookBehindN", "", func() p.ParserFn { return p.LookBehindN(1, 2, leaf()) }},
		{"Repeat", "", func() p.ParserFn { return p.Repeat(one, leaf()) }}, {"Once", "", func() p.ParserFn { return p.Once(leaf()) }},
		{"ZeroOrOnce", "", func() p.ParserFn { return p.ZeroOrOnce(leaf()) }}, {"ZeroOrMoreTimes", "", func() p.ParserFn { return p.ZeroOrMoreTimes(leaf()) }},
		{"OneOrMoreTimes", "", func() p.ParserFn { return p.OneOrMoreTimes(leaf()) }}, {"Trans", "", func() p.ParserFn { return p.Trans(leaf(), p.Erase) }},
		{"str.Any", "", str.Any}, {"str.End", "", str.End}, {"str.Seq", "", leaf}, {"str.SeqI", "", func() p.ParserFn { return str.SeqI("q") }},
		{"str.CharRange", "", func() p.ParserFn { return str.CharRange(p.RuneRange{Start: 'a', End: 'z'}) }},
		{"str.CharRangeN", "", func() p.ParserFn { return str.CharRangeN(p.RuneRange{Start: 'a', End: 'z'}) }},
		{"str.CharClass", "", func() p.ParserFn { return str.CharClass("a") }}, {"str.CharClassN", "", func() p.ParserFn { return str.CharClassN("a") }},
		{"str.CharClassFn", "", func() p.ParserFn { return str.CharClassFn(func(rune) bool { return true }) }},
		{"str.Whitespace", "", str.Whitespace}, {"str.WhitespaceNoLineBreak", "", str.WhitespaceNoLineBreak}, {"str.LineBreak", "", str.LineBreak},
		{"str.Alpha", "", str.Alpha}, {"str.Number", "", str.Number}, {"str.Alnum", "", str.Alnum}, {"str.BinNumber", "", str.BinNumber},
		{"str.OctNumber", "", str.OctNumber}, {"str.HexNumber", "", str.HexNumber}, {"str.WordBoundary", "", str.WordBoundary},
		{"obj.Any", "", obj.Any}, {"obj.End", "", obj.End}, {"obj.Seq", "", func() p.ParserFn { return obj.Seq(1) }},
		{"obj.ObjClass", "", func() p.ParserFn { return obj.ObjClass(1) }}, {"obj.ObjClassN", "", func() p.ParserFn { return obj.ObjClassN(1) }},
		{"obj.ObjClassFn", "", func() p.ParserFn { return obj.ObjClassFn(func(interface{}) bool { return true }) }},
		{"BinaryNumberStr", "", extra.BinaryNumberStr}, {"OctalNumberStr", "", extra.OctalNumberStr}, {"HexNumberStr", "", extra.HexNumberStr},
		{"IntegerNumberStr", "", extra.IntegerNumberStr}, {"FloatNumberStr", "", extra.FloatNumberStr}, {"NumericStr", "", extra.NumericStr},
		{"AsciiIdentifierStr", "", extra.AsciiIdentifierStr}, {"UnicodeIdentifierStr", "", extra.UnicodeIdentifierStr}, {"UnicodeWordBoundary", "", extra.UnicodeWordBoundary},
		{"DateStr", "", extra.DateStr}, {"DateTimeStr", "", extra.DateTimeStr}, {"TimeStr", "", extra.TimeStr},
	}
	n := len(mks)
	r.Sub("pairs", n*n, func(w *kit.W, i int) {
		x, y := mks[i/n], mks[i%n]
		w.Descf("%s, %s and %s built while tracing", x.name, y.name, x.name)
		var log []ev27
		buildMu27.Lock()
		dt := p.DebugTrace("pair", tracer27{"t", &log})
		fns := []p.ParserFn{x.build(), y.build(), x.build()}
		dt()
		again := x.build()
		buildMu27.Unlock()
		buildMu27.RLock() // lazy parsers are built while running
		defer buildMu27.RUnlock()
		first := map[int]int{}
		class := map[int]string{}
		all := map[int]int{}
		for round := 0; round < 2; round++ {
			for k, fn := range fns {
				for _, ctx := range []p.ParserContext{{Str: ""}, {Str: "qa 1", Slice: objs{1, 2}}} {
					if ctx.Slice == nil {
						ctx.Slice = objs{}
					}
					log = log[:0]
					out, err := fn(ctx)
					w.Eval()
					if name := []string{x.name, y.name, x.name}[k]; strings.HasPrefix(name, "LookBehind") {
						// only its attempts are traced
						for _, e := range log {
							if o, ok := all[e.no]; ok && o != k {
								w.Fail("number %d appears in parsers %d and %d", e.no, o, k)
								return
							}
							all[e.no] = k
						}
						continue
					}
					if len(log) < 2 || log[0].kind != 'B' || log[len(log)-1].kind != 'A' || log[0].no != log[len(log)-1].no {
						w.Fail("parser %d: events\n      %s", k, showLog27(log))
						return
					}
					last := log[len(log)-1]
					if last.err != err || last.st != out.MatchStatus || last.pos != out.Position || last.n != len(out.AstStack) {
						w.Fail("parser %d: %v reported, returned %s", k, last, showOut(out, err)())
						return
					}
					if m := wellFormed27(log); m != "" {
						w.Fail("%s\n      %s", m, showLog27(log))
						return
					}
					if o, ok := first[k]; ok && o != log[0].no {
						w.Fail("parser %d has numbers %d and %d", k, o, log[0].no)
						return
					}
					first[k] = log[0].no
					class[k] = log[0].class
					for _, e := range log {
						if o, ok := all[e.no]; ok && o != k {
							w.Fail("number %d appears in parsers %d and %d", e.no, o, k)
							return
						}
						all[e.no] = k
						if e.scope != "/pair" {
							w.Fail("scope %q", e.scope)
							return
						}
					}
					w.States(len(log))
					log = log[:0]
					again(ctx)
					if len(log) > 0 {
						w.Fail("%s built afterwards is traced: %s", x.name, showLog27(log))
						return
					}
				}
			}
		}
		if class[0] != class[2] || x.class != "" && class[0] != x.class {
			w.Fail("classes %v", class)
		}
		w.Transitions(1)
		w.Nontrivial()
	})
}

// scopes27 nests traced constructions.
func scopes27(r *kit.Run) {
	// Trees of scopes: each node is traced by its own tracer, or not, and has a probe before and after its children.
	type tree struct {
		name string // "" for an untraced group
		kids []*tree
		bare bool // nothing in it but kids
	}
	var shapes []*tree
	var gen func(depth, width int) []*tree
	gen = func(depth, width int) (out []*tree) {
		out = append(out, &tree{name: "e", bare: true})
		for _, nm := range []string{"", "x", "y/z"} {
			out = append(out, &tree{name: nm})
			if depth == 1 {
				out = append(out, &tree{name: nm, bare: true, kids: []*tree{{name: nm}}})
			}
			if depth == 0 {
				continue
			}
			subs := gen(depth-1, width)
			for _, a := range subs {
				out = append(out, &tree{name: nm, kids: []*tree{a}})
			}
			if width > 1 {
				for i, a := range subs {
					for j, b := range subs {
						if depth < 2 || (i+j)%3 == 0 {
							out = append(out, &tree{name: nm, kids: []*tree{a, b}})
						}
					}
				}
			}
		}
		return
	}
	shapes = append(gen(3, 1), gen(2, 2)...)
	// long and deep scope paths, with untraced groups and siblings on the way
	for _, nm := range []string{"f", "a", "scope", strings.Repeat("long ", 8), strings.Repeat("x", 300)} {
		for depth := 4; depth <= 40; depth++ {
			t := &tree{name: nm}
			for k := 1; k < depth; k++ {
				o := &tree{name: fmt.Sprint(nm, k), kids: []*tree{t}, bare: k%4 == 3}
				if k%5 == 2 {
					o.kids = append(o.kids, &tree{name: "s"})
				}
				if k%6 == 4 {
					o = &tree{kids: []*tree{o}}
				}
				t = o
			}
			shapes = append(shapes, t)
		}
	}
	var show func(t *tree) string
	show = func(t *tree) string {
		s := t.name + "("
		for _, k := range t.kids {
			s += show(k) + " "
		}
		return s + ")"
	}
	r.Sub("scopes", len(shapes)*2, func(w *kit.W, i int) {
		t := shapes[i/2]
		w.Desc(func() string { return fmt.Sprintf("scopes %s, panicking in the middle: %v", show(t), i%2 == 1) })
		var log []ev27
		var want []string
		count := 0
		probe := func(scope string, who string, boom bool) p.ParserFn {
			count++
			class := fmt.Sprint("probe", count)
			if scope != "" {
				want = append(want, fmt.Sprintf("B %s %s %s", scope, who, class))
				if !boom {
					want = append(want, fmt.Sprintf("A %s %s %s", scope, who, class))
				}
			}
			return p.LightBaseParser(class, func(ctx p.ParserContext) (p.ParserContext, error) {
				if boom {
					panic("boom")
				}
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			})
		}
		var build func(t *tree, scope, who string) p.ParserFn
		build = func(t *tree, scope, who string) p.ParserFn {
			inner, me := scope, who
			mk := func(k ...p.ParserFn) p.ParserFn { return p.FlatGroup(k...) }
			if t.name != "" {
				inner = scope + "/" + t.name
				count++
				me = fmt.Sprint("tracer", count)
				mk = p.DebugTrace(t.name, tracer27{me, &log})
			}
			var ks []p.ParserFn
			if !t.bare {
				ks = append(ks, probe(inner, me, false))
			}
			for _, k := range t.kids {
				ks = append(ks, build(k, inner, me))
				if !t.bare {
					ks = append(ks, probe(inner, me, false))
				}
			}
			f := mk(ks...)
			return f
		}
		buildMu27.Lock()
		a := probe("", "", false)
		b := build(t, "", "")
		c := probe("", "", false)
		d := build(t, "", "")
		if i%2 == 1 {
			d = p.First(p.DebugTrace("last", tracer27{"last", &log})(probe("/last", "last", true)), d)
		}
		buildMu27.Unlock()
		want2 := want
		if i%2 == 1 {
			// the second copy is never reached
			want2 = append(append([]string{}, want[:(len(want)-1)/2]...), want[len(want)-1])
		}
		buildMu27.RLock()
		defer buildMu27.RUnlock()
		panicked := try(func() { p.FlatGroup(a, b, c, d)(*str.NewStringParserContext("x")) })
		w.Eval()
		if (i%2 == 1) != (panicked != "") {
			w.Fail("panic %q", panicked)
			return
		}
		var got []string
		for _, e := range log {
			if strings.HasPrefix(e.class, "probe") && e.kind != 'P' {
				got = append(got, fmt.Sprintf("%c %s %s %s", e.kind, e.scope, e.who, e.class))
			}
		}
		if strings.Join(got, "\n") != strings.Join(want2, "\n") {
			w.Fail("events\n   got %q\n  want %q", got, want2)
			return
		}
		if m := wellFormed27(log); m != "" {
			w.Fail("%s\n      %s", m, showLog27(log))
		}
		w.States(len(got))
		w.Transitions(1)
		w.Nontrivial()
	})
}

// library27 traces parsers of the library.
func library27(r *kit.Run) {
	calc := func() p.ParserFn {
		var expr p.ParserFn
		num := p.Trans(extra.IntegerNumberStr(), str.ParseInt)
		num = p.Trans(num, p.ChangeClassName("v"))
		op := func(s string) p.ParserFn { return p.Trans(str.CharClass(s), p.ChangeClassName("op")) }
		lazy := p.Indirect(func() p.ParserFn { return expr })
		prim := p.First(num, p.FlatGroup(p.Trans(str.Seq("("), p.Erase), lazy, p.Trans(str.Seq(")"), p.Erase)))
		list := p.FlatGroup(prim, p.ZeroOrMoreTimes(p.First(op("+"), op("-")), prim))
		expr = p.Trans(list, func(_ p.ParserContext, l p.AstSlice) (p.AstSlice, error) {
			n := l[0].Value.(int64)
			for k := 1; k+1 < len(l); k += 2 {
				if l[k].Value == "+" {
					n += l[k+1].Value.(int64)
				} else {
					n -= l[k+1].Value.(int64)
				}
			}
			if n == 7 {
				return nil, errors.New("seven")
			}
			return p.AstSlice{{ClassName: "v", Type: p.AstType_Int, Value: n}}, nil
		})
		return p.FlatGroup(expr, str.End())
	}
	list := []struct {
		name  string
		build func() p.ParserFn
		alpha []string
		max   int
	}{
		{"numbers", extra.NumericStr, []string{"0", "1", "x", ".", "e", "-", "_"}, 5},
		{"floats", extra.FloatNumberStr, []string{"0", "1", ".", "e", "+"}, 5},
		{"integers", extra.IntegerNumberStr, []string{"0", "1", "-", "_", "a"}, 5},
		{"identifiers", extra.UnicodeIdentifierStr, []string{"a", "0", "_", "$", "漢", " "}, 4},
		{"dates", extra.DateStr, []string{"2", "0", "-", "12", "1999"}, 5},
		{"times", extra.TimeStr, []string{"2", "0", ":", "12", "59", "."}, 5},
		{"date-times", extra.DateTimeStr, []string{"1999-12-31", "T", "23:59", ":01", ".5", "Z", "+09:00"}, 5},
		{"calculator", calc, []string{"1", "2", "+", "-", "(", ")"}, 5},
		{"groups", func() p.ParserFn {
			return p.ZeroOrMoreTimes(p.First(p.Group(str.Seq("a"), p.ZeroOrOnce(str.SeqI("B"))), p.Trans(p.OneOrMoreTimes(str.CharRange(p.RuneRange{Start: 'x', End: 'z'})), str.Concat), p.FlatGroup(str.WordBoundary(), str.Any())))
		}, []string{"a", "b", "B", "x", "y", " "}, 5},
	}
	for _, x := range list {
		x := x
		var log []ev27
		buildMu27.Lock()
		plain := p.FlatGroup(x.build())
		traced := p.DebugTrace(x.name, tracer27{"t", &log})(x.build())
		buildMu27.Unlock()
		sp := kit.NewStrings(x.max, x.alpha...)
		var mu sync.Mutex
		r.Sub("library "+x.name, sp.Len(), func(w *kit.W, i int) {
			s := sp.At(i)
			w.Descf("%s on %q", x.name, s)
			mu.Lock() // one log
			defer mu.Unlock()
			log = log[:0]
			out, err := traced(*str.NewStringParserContext(s))
			events := log
			o2, err2 := plain(*str.NewStringParserContext(s))
			w.Eval()
			if a, b := showOut(out, err)(), showOut(o2, err2)(); a != b {
				w.Fail("traced result %s\n   untraced %s", a, b)
				return
			}
			if m := wellFormed27(events); m != "" {
				w.Fail("%s\n      %s", m, showLog27(events))
				return
			}
			if len(log) != len(events) || len(events) == 0 {
				w.Fail("%d events, then %d", len(events), len(log))
				return
			}
			w.States(len(events))
			w.Transitions(1)
			w.Nontrivial()
			w.SeeStr(showOut(out, err)())
		})
	}
}
