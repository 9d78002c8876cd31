package props

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

// bench07 is a set of parsers that share sub-parsers.
type bench07 struct {
	calls []call07
}

type call07 struct {
	name string
	// run executes the call and returns its outcome and a function that prints the
	// outcome (again, whenever it is called) so that later changes to it show.
	run func() func() string
}

func showOut(out p.ParserContext, err error) func() string {
	return func() string {
		s := fmt.Sprintf("%v err=%v", out.MatchStatus, err)
		if out.MatchStatus == p.MatchStatus_Matched {
			s += fmt.Sprintf(" pos=%d q=%d tag=%v str=%q [%s]", out.Position, out.Quantity, out.Tag, out.Str, dump(out.AstStack))
		}
		return s
	}
}

func dump(l []p.Ast) string {
	var sb strings.Builder
	for _, a := range l {
		switch v := a.Value.(type) {
		case p.AstSlice:
			fmt.Fprintf(&sb, "{%s %d %v @%d+%d [%s]} ", a.ClassName, a.OpCode, a.Type, a.Position, a.Length, dump(v))
		case objs:
			fmt.Fprintf(&sb, "{%s %d %v @%d+%d %#v} ", a.ClassName, a.OpCode, a.Type, a.Position, a.Length, []interface{}(v))
		default:
			fmt.Fprintf(&sb, "{%s %d %v @%d+%d %#v} ", a.ClassName, a.OpCode, a.Type, a.Position, a.Length, a.Value)
		}
	}
	return sb.String()
}

// objs is a plain slice source.
type objs []interface{}

func (s objs) Len() int                         { return len(s) }
func (s objs) Get(i int) interface{}            { return s[i] }
func (s objs) Set(i int, v interface{})         { s[i] = v }
func (s objs) Reslice(a, b int) p.SliceLike     { return s[a:b] }
func (s objs) Copy(a, b int) p.SliceLike        { return append(make(objs, 0, b-a), s[a:b]...) }
func (s objs) Make(l, c int) p.SliceLike        { return make(objs, l, c) }
func (s objs) ItemEquals(a, b interface{}) bool { return a == b }

func newBench07() *bench07 {
	b := &bench07{}
	guard := func(f func() (p.ParserContext, error)) (s func() string) {
		defer func() {
			if x := recover(); x != nil {
				m := fmt.Sprint("panic: ", x)
				s = func() string { return m }
			}
		}()
		return showOut(f())
	}
	// str call: the caller's context is kept and compared afterwards
	strCall := func(name string, fn p.ParserFn, v Variant, src string) {
		b.calls = append(b.calls, call07{name + strconv.Quote(src), func() func() string {
			ctx := v.Context(src, 0, "T")
			before := ctx
			stack := append(p.AstSlice{}, ctx.AstStack...)
			show := guard(func() (p.ParserContext, error) { return fn(ctx) })
			return func() string {
				s := show()
				if ctx.Str != before.Str || ctx.Position != before.Position || ctx.Length != before.Length || ctx.Quantity != before.Quantity ||
					ctx.MatchStatus != before.MatchStatus || ctx.ClassName != before.ClassName || len(ctx.AstStack) != len(stack) || dump(ctx.AstStack) != dump(stack) {
					s += " CALLER'S CONTEXT CHANGED"
				}
				return s
			}
		}})
	}
	sp := func() p.ParserFn { return p.Trans(p.ZeroOrMoreTimes(str.Whitespace()), p.Erase) }
	num := p.Trans(extra.IntegerNumberStr(), str.ParseInt)
	ident := extra.UnicodeIdentifierStr()
	var value p.ParserFn
	ref := p.Indirect(func() p.ParserFn { return value })
	drop := func(s string) p.ParserFn { return p.Trans(str.Seq(s), p.Erase) }
	list := p.Group(drop("("), ref, p.ZeroOrMoreTimes(drop(","), ref), p.First(drop(")"), p.FlatGroup(str.End(), p.Error("unclosed"))))
	value = p.First(num, ident, list)
	built := 0
	flaky := p.Indirect(func() p.ParserFn {
		built++
		return p.Trans(str.Seq("f"), func(ctx p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return a, nil })
	})
	boom := p.FlatGroup(str.Seq("x"), p.First(num, p.Indirect(func() p.ParserFn { return func(p.ParserContext) (p.ParserContext, error) { panic("user panic") } })))
	badBuilder := p.Indirect(func() p.ParserFn { panic("builder panic") })
	fail := p.Trans(p.FlatGroup(num, ident), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
		return nil, errors.New("E" + a[1].Value.(string))
	})
	match := p.FlatGroup(str.Any(), str.Any(), p.Match(2)(p.Case{If: p.TopIsStr("b"), Let: []p.TransformerFn{str.Concat, p.ChangeClassName("ab")}}, p.Case{If: p.TopIsAny, Let: []p.TransformerFn{p.Exchange}}))
	atom := obj.ObjClassFn(func(c interface{}) bool { return c.(p.Ast).Type == p.AstType_Int })
	plus := obj.ObjClassFn(func(c interface{}) bool { return c.(p.Ast).Value == "+" })
	minus := obj.ObjClassFn(func(c interface{}) bool { return c.(p.Ast).Value == "-" })
	calc := func(f func(a, b int64) (int64, error)) p.TransformerFn {
		return func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
			v, err := f(a[0].Value.(p.Ast).Value.(int64), a[2].Value.(p.Ast).Value.(int64))
			return p.AstSlice{{Type: p.AstType_Int, ClassName: "n", Value: v}}, err
		}
	}
	rules := p.ProductionRule([]p.Precedence{
		{Rules: []p.ParserFn{p.Trans(p.FlatGroup(atom, minus, atom), calc(func(a, b int64) (int64, error) {
			if b == 7 {
				return 0, errors.New("seven")
			}
			return a - b, nil
		}))}, Rtol: true},
		{Rules: []p.ParserFn{p.Trans(p.FlatGroup(atom, plus, atom), calc(func(a, b int64) (int64, error) { return a + b, nil }))}},
	}, p.FlatGroup(p.Start(), obj.Any(), obj.End()))
	sum := p.Trans(p.FlatGroup(p.Trans(str.Number(), str.ParseInt), p.ZeroOrMoreTimes(str.CharClass("+", "-"), p.Trans(str.Number(), str.ParseInt))), rules)
	date := p.Trans(extra.DateTimeStr(), extra.ParseDateTime)
	look := p.FlatGroup(p.ZeroOrMoreTimes(p.First(p.FlatGroup(str.Any(), p.LookBehind(1, 2, str.Seq("é"))), str.Alpha())), p.LookAheadN(str.Seq("!")))
	ins := p.FlatGroup(p.Zero(p.Ast{ClassName: "i", Type: p.AstType_String, Value: "i"}), p.ZeroOrMoreTimes(p.Zero(p.Ast{ClassName: "j", Value: "j"}), str.Seq("a")))

	strCall("value", value, vPlain, "(1,(x,2),y)")
	strCall("value", value, vAll[4], "(1,(zz")
	strCall("value", value, vAll[3], "-12")
	strCall("spaced", p.FlatGroup(sp(), value, sp(), ident), vPlain, " a1 b")
	strCall("flaky", p.FlatGroup(flaky, p.ZeroOrOnce(flaky)), vPlain, "ff")
	strCall("boom", boom, vAll[2], "xy")
	strCall("boom", boom, vPlain, "x3")
	strCall("badBuilder", badBuilder, vPlain, "x")
	strCall("fail", fail, vAll[2], "12ab")
	strCall("match", match, vAll[4], "ab")
	strCall("match", match, vPlain, "ba")
	strCall("sum", sum, vPlain, "1+9-3-2+4")
	strCall("sum", sum, vAll[2], "1+9-7")
	strCall("sum", sum, vPlain, "8")
	strCall("date", date, vPlain, "2020-02-29T10:20:30.5+09:00")
	strCall("date", date, vPlain, "2021-02-29T10:20Z")
	strCall("look", look, vPlain, "aéb漢")
	strCall("ins", ins, vAll[3], "aa")
	strCall("ins", ins, vPlain, "b")

	shared := objs{1, "a", 2, "a", 1}
	objSeq := p.FlatGroup(obj.Seq(1, "a"), p.First(obj.Seq(2, "b"), p.Trans(p.FlatGroup(obj.Any(), obj.ObjClass("a", "b")), p.ToSlice), obj.End()), obj.ObjClassN("a", 2))
	objCall := func(name string, fn p.ParserFn, pos int) {
		b.calls = append(b.calls, call07{fmt.Sprint(name, "@", pos), func() func() string {
			ctx := *obj.NewObjectParserContextWithTag(shared, 7)
			ctx.Position = pos
			show := guard(func() (p.ParserContext, error) { return fn(ctx) })
			return func() string {
				return show() + fmt.Sprint(" source ", shared)
			}
		}})
	}
	objCall("objSeq", objSeq, 0)
	objCall("objSeq", objSeq, 2)
	asts := p.AstSlice{{Type: p.AstType_Int, Value: int64(5)}, {Type: p.AstType_String, Value: "-"}, {Type: p.AstType_Int, Value: int64(3)}, {Type: p.AstType_String, Value: "+"}, {Type: p.AstType_Int, Value: int64(1)}}
	b.calls = append(b.calls, call07{"rules on shared list", func() func() string {
		out, err := rules(*str.NewStringParserContext(""), asts)
		return func() string { return dump(out) + fmt.Sprint(err) + " given " + dump(asts) }
	}})
	ex := func(name string, f func() string) {
		b.calls = append(b.calls, call07{name, func() func() string {
			s := f()
			return func() string { return s }
		}})
	}
	csvCall := func(src string) {
		b.calls = append(b.calls, call07{"csv" + strconv.Quote(src), func() func() string {
			rows, err := csv.Parse(src)
			return func() string { return fmt.Sprintf("%q %v", rows, err) }
		}})
	}
	csvCall("a, \"b\"\"c\" ,d\r\n1,2,3\n\n")
	csvCall("a,\"b")
	ex("formula (1+2)*-(3-5)", func() string { v, err := formula.Parse("(1+2)*-(3-5)"); return fmt.Sprint(v, err) })
	ex("formula (1+", func() string { v, err := formula.Parse("(1+"); return fmt.Sprint(v, err) })
	b.calls = append(b.calls, call07{"rpn", func() func() string {
		v, err := torpn.Parse("-(1+2)*3-(4)")
		return func() string { return fmt.Sprint(v, err) }
	}})
	ex("rpn 1*", func() string { v, err := torpn.Parse("1*"); return fmt.Sprint(v, err) })
	return b
}

func init() {
	kit.RegisterAux("c07", func(arg string) string {
		k, _ := strconv.Atoi(arg)
		return newBench07().calls[k].run()()
	})
	kit.Register(&kit.Check{
		ID: "C07", Level: "model_checking",
		Bounds:      "every ordered pair of 18/36 contexts (tag, position, stack) on one text for one instance of 11 context-dependent parsers below every pair of 17 constructs; object sources changed between parses; one instance of each of 45 terminals, literal parsers and converters through every ordered pair of texts of up to 2 (3) words and positions; 212 calls over the whole library, each alone in a process and all of them in 424 orders; pairs of parsers built from overlapping windows of every 3-member list of the caller's, for 26 constructors; 13 parsers used up to 1100 times on one text before others; 28 calls (matching, unmatched, erroring, panicking) of parsers that share sub-parsers, sources and package-level example parsers; every history of up to 3 (quick) / 4 (thorough) calls on one set of instances, plus one call repeated around every other and 300 rounds of each pair; every outcome is compared with the outcome of that call alone in a process of its own, at once and again after the whole history",
		Assumptions: []string{"user callbacks are themselves pure"},
		Run:         run07,
	})
}

func run07(r *kit.Run) {
	n := len(newBench07().calls)
	want := make([]string, n)
	names := make([]string, n)
	for k, c := range newBench07().calls {
		names[k] = c.name
		s, err := kit.Aux("c07", strconv.Itoa(k))
		if err != nil {
			r.Violate("solo", c.name, fmt.Sprintf("a single call crashed its process: %v %s", err, s))
		}
		want[k] = s
	}
	r.Note("calls", names)
	depth := 3
	if r.Thorough {
		depth = 4
	}
	total := 0
	pow := 1
	for l := 1; l <= depth; l++ {
		pow *= n
		total += pow
	}
	history := func(w *kit.W, h []int) {
		w.Desc(func() string {
			var s []string
			for _, k := range h {
				s = append(s, names[k])
			}
			return strings.Join(s, "; ")
		})
		b := newBench07()
		shows := make([]func() string, len(h))
		for j, k := range h {
			shows[j] = b.calls[k].run()
			w.Eval()
			w.Transitions(1)
			if got := shows[j](); got != want[k] {
				w.Fail("call %d (%s)\n   got %s\n alone %s", j, names[k], got, want[k])
				return
			}
		}
		w.States(1)
		w.Nontrivial()
		for j, k := range h {
			if got := shows[j](); got != want[k] {
				w.Fail("outcome of call %d (%s) changed later\n   now %s\n  was %s", j, names[k], got, want[k])
				return
			}
		}
		w.SeeStr(want[h[len(h)-1]])
	}
	r.Sub("histories", total, func(w *kit.W, i int) {
		l, pw := 1, n
		for i >= pw {
			i -= pw
			pw *= n
			l++
		}
		h := make([]int, l)
		for k := range h {
			h[k] = i % n
			i /= n
		}
		history(w, h)
	})
	r.Sub("long-pairs", n*n, func(w *kit.W, i int) {
		a, c := i%n, i/n
		rounds := 30
		if r.Thorough {
			rounds = 300
		}
		var h []int
		for k := 0; k < rounds; k++ {
			h = append(h, a, c)
		}
		history(w, h)
	})
	contexts07(r)
	terminals07(r)
	arguments07(r)
	repeats07(r)
	wide07run(r)
	// every construct: the same parser instance, all inputs, in order and in reverse, must agree
	// with a fresh instance for every input.
	sp := peg.NewSpace(3, ops02()...)
	in := words(3, "a", "b")
	r.Sub("constructs", sp.Len(), func(w *kit.W, i int) {
		t := sp.At(i)
		w.Descf("%v reused on all inputs, forwards and backwards", t)
		env := &peg.Env{}
		shared := t.Build(env)
		res := make([]string, len(in))
		skip := make([]bool, len(in))
		var outs []func() string
		for pass := 0; pass < 2; pass++ {
			for j := range in {
				k := j
				if pass == 1 {
					k = len(in) - 1 - j
				}
				v := vAll[k%len(vAll)]
				if pass == 0 {
					m := peg.Eval(t, in[k], v.State(0, 5), &peg.Env{}, false)
					w.Transitions(m.Steps)
					skip[k] = m.Skip
				}
				if skip[k] {
					continue
				}
				if pass == 0 {
					out, err := t.Build(&peg.Env{})(v.Context(in[k], 0, 5))
					res[k] = showOut(out, err)()
				}
				out, err := shared(v.Context(in[k], 0, 5))
				w.Eval()
				show := showOut(out, err)
				outs = append(outs, show)
				if got := show(); got != res[k] {
					w.Fail("pass %d input %q\n   got %s\n fresh %s", pass, in[k], got, res[k])
					return
				}
			}
		}
		w.States(len(in))
		w.Nontrivial()
		q := 0
		for pass := 0; pass < 2; pass++ {
			for j := range in {
				k := j
				if pass == 1 {
					k = len(in) - 1 - j
				}
				if skip[k] {
					continue
				}
				if got := outs[q](); got != res[k] {
					w.Fail("result for %q changed later\n   now %s\n   was %s", in[k], got, res[k])
					return
				}
				q++
			}
		}
	})
}

// contexts07 calls one instance twice on the same text in different contexts (tag, position, stack, source
// object): the second outcome must be that of a fresh instance, and the first must stay as it was.
func contexts07(r *kit.Run) {
	ok := func(ctx p.ParserContext, b bool) (p.ParserContext, error) {
		ctx.MatchStatus = p.MatchStatus_Unmatched
		if b {
			ctx.Length = 0
			ctx.MatchStatus = p.MatchStatus_Matched
		}
		return ctx, nil
	}
	lift := func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) { return p.AstSlice{a[0].Value.(p.Ast)}, nil }
	type named struct {
		name string
		mk   func() p.ParserFn
	}
	// leaves whose outcome depends on some part of the context
	leaves := []named{
		{"tag test", func() p.ParserFn {
			return p.LightBaseParser("tag", func(ctx p.ParserContext) (p.ParserContext, error) { return ok(ctx, ctx.Tag == 1) })
		}},
		{"tag test and a character", func() p.ParserFn {
			return p.FlatGroup(func(ctx p.ParserContext) (p.ParserContext, error) { return ok(ctx, ctx.Tag == 1) }, str.Any())
		}},
		{"tag as an entry", func() p.ParserFn {
			return p.Trans(str.Any(), func(ctx p.ParserContext, _ p.AstSlice) (p.AstSlice, error) {
				return p.AstSlice{{Type: p.AstType_Any, Value: ctx.Tag}}, nil
			})
		}},
		{"tag error", func() p.ParserFn {
			return func(ctx p.ParserContext) (p.ParserContext, error) {
				if ctx.Tag == 2 {
					ctx.MatchStatus = p.MatchStatus_Error
					return ctx, errors.New("tag 2")
				}
				return ok(ctx, ctx.Tag == 1)
			}
		}},
		{"newest entry test", func() p.ParserFn { return p.Match(1)(p.Case{If: p.TopIsStr("pre1")}) }},
		{"stack height test", func() p.ParserFn {
			return p.BaseParser("h", func(n, bottom int, ctx p.ParserContext) (p.ParserContext, error) { return ok(ctx, bottom == 2) }, nil, nil, nil)
		}},
		{"start", p.Start},
		{"character", func() p.ParserFn { return str.Seq("a") }},
		{"inserted entries", func() p.ParserFn { return p.Zero(z07("y"), z07("z")) }},
		{"rule by tag", func() p.ParserFn {
			return p.Trans(p.FlatGroup(str.Any(), p.Zero(z07("t"))), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{
				p.Trans(p.FlatGroup(func(ctx p.ParserContext) (p.ParserContext, error) { return ok(ctx, ctx.Tag == 1) }, obj.Any(), obj.Any()), lift),
			}}}, p.FlatGroup(p.Start(), obj.Any(), obj.End())))
		}},
		{"case by tag", func() p.ParserFn {
			return p.FlatGroup(str.Any(), p.Match(1)(p.Case{If: p.TopIsStr("a"), Let: []p.TransformerFn{func(ctx p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				if ctx.Tag == 2 {
					return nil, errors.New("tag 2")
				}
				return p.AstSlice{{Type: p.AstType_Any, Value: ctx.Tag}}, nil
			}}}))
		}},
	}
	wraps := []struct {
		name string
		mk   func(x p.ParserFn) p.ParserFn
	}{
		{"itself", func(x p.ParserFn) p.ParserFn { return x }},
		{"deferred", func(x p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return x }) }},
		{"sequence", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(x, p.ZeroOrMoreTimes(str.Any())) }},
		{"group", func(x p.ParserFn) p.ParserFn { return p.Group(x) }},
		{"choice", func(x p.ParserFn) p.ParserFn { return p.First(x, str.Any()) }},
		{"later choice", func(x p.ParserFn) p.ParserFn { return p.First(str.Seq("b"), x) }},
		{"option", func(x p.ParserFn) p.ParserFn { return p.ZeroOrOnce(x) }},
		{"once", func(x p.ParserFn) p.ParserFn { return p.Once(x) }},
		{"twice", func(x p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: 1, Max: 2}, x) }},
		{"look-ahead", func(x p.ParserFn) p.ParserFn { return p.LookAhead(x) }},
		{"negative look-ahead", func(x p.ParserFn) p.ParserFn { return p.LookAheadN(x) }},
		{"look-behind", func(x p.ParserFn) p.ParserFn { return p.LookBehind(0, 1, x) }},
		{"negative look-behind", func(x p.ParserFn) p.ParserFn { return p.LookBehindN(0, 1, x) }},
		{"erased", func(x p.ParserFn) p.ParserFn { return p.Trans(x, p.Erase) }},
		{"transformers", func(x p.ParserFn) p.ParserFn {
			return p.Trans(x, p.SetOpCode(3), p.ChangeClassName("c"), p.Push(z07("p")), p.Exchange, p.Roll(1), p.Prepend(z07("q")), p.GroupingTransform)
		}},
		{"if", func(x p.ParserFn) p.ParserFn { return p.If(true, x, nil) }},
		{"shared twice", func(x p.ParserFn) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(x), x) }},
	}
	type cx struct {
		name string
		mk   func(src string) p.ParserContext
	}
	var cxs []cx
	vs := []Variant{vPlain, vAll[2], vAll[4]}
	texts := []string{"ab", "aa"}
	if r.Thorough {
		vs, texts = vAll, words(2, "a", "b")
	}
	for tag := 0; tag <= 2; tag++ {
		for _, v := range vs {
			for pos := 0; pos <= 1; pos++ {
				tag, v, pos := tag, v, pos
				cxs = append(cxs, cx{fmt.Sprintf("tag %d, stack %s, position %d", tag, v.Name, pos), func(src string) p.ParserContext { return v.Context(src, pos, tag) }})
			}
		}
	}
	nw, nl, nc := len(wraps), len(leaves), len(cxs)
	r.Sub("contexts", nl*nw*nw*len(texts), func(w *kit.W, i int) {
		src := texts[i%len(texts)]
		l, a, b := leaves[i/len(texts)%nl], wraps[i/len(texts)/nl%nw], wraps[i/len(texts)/nl/nw]
		mk := func() p.ParserFn { return b.mk(a.mk(l.mk())) }
		var x, y cx
		w.Desc(func() string {
			return fmt.Sprintf("%s in %s in %s on %q: first %s, then %s", l.name, a.name, b.name, src, x.name, y.name)
		})
		call := func(fn p.ParserFn, c cx) (s func() string) {
			if len(src) == 0 && strings.HasSuffix(c.name, "1") {
				return func() string { return "" }
			}
			defer func() {
				if r := recover(); r != nil {
					m := fmt.Sprint("panic ", r)
					s = func() string { return m }
				}
			}()
			return showOut(fn(c.mk(src)))
		}
		fresh := make([]string, nc)
		for k := range cxs {
			fresh[k] = call(mk(), cxs[k])()
			w.SeeStr(fresh[k])
		}
		for k := range cxs {
			x = cxs[k]
			fn := mk()
			first := call(fn, x)
			for q := range cxs {
				y = cxs[q]
				got := call(fn, y)
				w.Eval()
				w.Transitions(1)
				if g := got(); g != fresh[q] {
					w.Fail("second call\n   got %s\n fresh %s", g, fresh[q])
					return
				}
				if g := first(); g != fresh[k] {
					w.Fail("first outcome changed\n   now %s\n   was %s", g, fresh[k])
					return
				}
			}
		}
		w.States(nc)
		w.Nontrivial()
	})
	// a source object may be changed by its owner between two parses
	r.Sub("changed-source", 64, func(w *kit.W, i int) {
		shared := objs{i & 1, i >> 1 & 1, i >> 2 & 1}
		w.Descf("object source %v changed to each of 8 contents", shared)
		for k := 0; k < 8; k++ {
			mk := func() p.ParserFn {
				var l p.ParserFn
				l = p.Indirect(func() p.ParserFn {
					return p.First(p.Group(obj.Seq(0, 1), p.ZeroOrOnce(l)), p.Group(obj.ObjClass(1), p.ZeroOrOnce(l)), p.FlatGroup(obj.ObjClassN(1), p.LookAhead(obj.Any()), l))
				})
				return l
			}
			fn := mk()
			src := append(objs{}, shared...)
			first := showOut(fn(*obj.NewObjectParserContext(src)))
			was := first()
			for q := range src {
				src[q] = k >> q & 1
			}
			got := showOut(fn(*obj.NewObjectParserContext(src)))()
			want := showOut(mk()(*obj.NewObjectParserContext(append(objs{}, src...))))()
			w.Eval()
			w.Transitions(2)
			if got != want || first() != was {
				w.Fail("changed to %v\n   got %s\n fresh %s\n first %s was %s", src, got, want, first(), was)
				return
			}
		}
		w.States(8)
		w.Nontrivial()
	})
}

func z07(s string) p.Ast { return p.Ast{ClassName: "z", Type: p.AstType_String, Value: s} }

// terminals07 walks one instance of every terminal, literal parser and converter through every ordered
// pair of short texts of a vocabulary of its own (words of one length that match and do not) and positions.
func terminals07(r *kit.Run) {
	type item struct {
		name  string
		mk    func() p.ParserFn
		words []string
	}
	tr := func(f func() p.ParserFn, t ...p.TransformerFn) func() p.ParserFn {
		return func() p.ParserFn { return p.Trans(f(), t...) }
	}
	num := []string{"1", "0", "-", ".5", "e3", "_", "x", "7F", "0b1", "12", "99"}
	date := []string{"2020-02-29", "2021-02-29", "T", "10:20:30.5", "23:59", "Z", "+09:00", "1999-12-31"}
	long, other := strings.Repeat("abcdefg", 9), strings.Repeat("abcdefg", 8)+"abcdefh"
	words := []string{"transform", "transfers", "TransForm", "a"}
	cls := []string{"a", "G", "7", "0", " ", "\n", "é", "漢", "\xff", "_", "$"}
	items := []item{
		{"long literal", func() p.ParserFn { return str.Seq("transform") }, words},
		{"long literal, any case", func() p.ParserFn { return str.SeqI("transform") }, words},
		{"longer literal", func() p.ParserFn { return str.Seq(long) }, []string{long, other, "a"}},
		{"longer literal, any case", func() p.ParserFn { return str.SeqI(long) }, []string{long, other, strings.ToUpper(long)}},
		{"short literal", func() p.ParserFn { return str.Seq("ab") }, []string{"ab", "aB", "ba", "b"}},
		{"literal, any case", func() p.ParserFn { return str.SeqI("aé") }, []string{"aé", "AÉ", "éa", "x"}},
		{"set", func() p.ParserFn { return str.CharClass("a", "ab", "transform", "é") }, append([]string{"ab", "é", "b"}, words...)},
		{"set of one", func() p.ParserFn { return str.CharClass("transform") }, words},
		{"negated set", func() p.ParserFn { return str.CharClassN("a", "transform", "é") }, append([]string{"ab", "é", "b"}, words...)},
		{"range", func() p.ParserFn {
			return str.CharRange(p.RuneRange{Start: 'a', End: 'f'}, p.RuneRange{Start: 'é', End: '漢'})
		}, cls},
		{"negated range", func() p.ParserFn { return str.CharRangeN(p.RuneRange{Start: 'a', End: 'f'}) }, cls},
		{"function", func() p.ParserFn { return str.CharClassFn(func(c rune) bool { return c > 'z' }) }, cls},
		{"any", str.Any, cls}, {"whitespace", str.Whitespace, cls}, {"blank", str.WhitespaceNoLineBreak, cls}, {"line break", str.LineBreak, append([]string{"\r\n", "\r"}, cls...)},
		{"alpha", str.Alpha, cls}, {"number", str.Number, cls}, {"alnum", str.Alnum, cls}, {"bin", str.BinNumber, cls}, {"oct", str.OctNumber, cls}, {"hex", str.HexNumber, cls},
		{"start", p.Start, cls}, {"end", str.End, cls}, {"word boundary", str.WordBoundary, cls}, {"Unicode word boundary", extra.UnicodeWordBoundary, cls},
		{"binary", extra.BinaryNumberStr, num}, {"octal", extra.OctalNumberStr, num}, {"hexadecimal", extra.HexNumberStr, num}, {"integer", extra.IntegerNumberStr, num}, {"float", extra.FloatNumberStr, num}, {"numeric", extra.NumericStr, num},
		{"parsed integer", tr(extra.IntegerNumberStr, str.ParseInt), num}, {"parsed hexadecimal", tr(extra.HexNumberStr, str.ParseUintRadix(16)), num}, {"parsed float", tr(extra.FloatNumberStr, str.ParseFloat), num},
		{"ASCII identifier", extra.AsciiIdentifierStr, cls}, {"Unicode identifier", extra.UnicodeIdentifierStr, append([]string{"\u200d"}, cls...)},
		{"date", extra.DateStr, date}, {"time", extra.TimeStr, date}, {"date-time", extra.DateTimeStr, date},
		{"parsed date", tr(extra.DateStr, extra.ParseDate), date}, {"parsed date-time", tr(extra.DateTimeStr, extra.ParseDateTime), date},
		{"character code", tr(str.Any, str.RuneFromInt), cls}, {"trimmed", tr(func() p.ParserFn { return p.OneOrMoreTimes(str.Any()) }, str.Trim), cls},
		{"concatenated", tr(func() p.ParserFn { return p.ZeroOrMoreTimes(str.CharClassN("$")) }, str.Concat), cls},
	}
	const parts = 24
	r.Sub("terminals", len(items)*parts, func(w *kit.W, i int) {
		it := items[i/parts]
		type call struct {
			src string
			pos int
		}
		var calls []call
		n := 2
		if len(it.words) < 6 && r.Thorough {
			n = 3
		}
		for _, s := range kit.NewStrings(n, it.words...).All() {
			for pos := 0; pos <= len(s); pos++ {
				if pos == 0 || pos == len(s) || r.Thorough && pos < 3 || contains(it.words, s[:pos]) {
					calls = append(calls, call{s, pos})
				}
			}
		}
		do := func(fn p.ParserFn, c call) (s func() string) {
			defer func() {
				if r := recover(); r != nil {
					m := fmt.Sprint("panic ", r)
					s = func() string { return m }
				}
			}()
			return showOut(fn([]Variant{vAll[1], vAll[2]}[len(c.src)%2].Context(c.src, c.pos, 5)))
		}
		fresh := make([]string, len(calls))
		for k, c := range calls {
			fresh[k] = do(it.mk(), c)()
		}
		w.States(len(calls))
		shared := it.mk()
		var a, b call
		w.Desc(func() string {
			return fmt.Sprintf("%s on %q at %d, then on %q at %d", it.name, a.src, a.pos, b.src, b.pos)
		})
		for x := range calls {
			if x%parts != i%parts {
				continue
			}
			a = calls[x]
			if x%7 == 0 {
				shared = it.mk()
			}
			var first func() string
			for y := range calls {
				b = calls[y]
				first = do(shared, a)
				got := do(shared, b)()
				w.Eval()
				w.Transitions(2)
				if got != fresh[y] {
					w.Fail("got %s\n fresh %s", got, fresh[y])
					return
				}
			}
			if g := first(); g != fresh[x] {
				w.Fail("first outcome is now %s\n fresh %s", g, fresh[x])
				return
			}
		}
		w.Nontrivial()
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
