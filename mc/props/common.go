// Package props holds one exploration per property.
package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
	"verif/mc/peg"
)

// Variant is a way to prepare the caller's starting context.
type Variant struct {
	Name   string
	Prefix int // entries the caller put on the stack
	Spare  int // spare capacity behind them; -1: the constructor's default stack
	Status p.MatchStatusType
	Dirty  bool // stale quantity, length and class name
}

var (
	vPlain  = Variant{Name: "new", Spare: -1}
	vAll    = []Variant{vPlain, {Name: "nil-stack"}, {Name: "2+0", Prefix: 2}, {Name: "1+1", Prefix: 1, Spare: 1}, {Name: "2+3 dirty", Prefix: 2, Spare: 3, Status: p.MatchStatus_Unmatched, Dirty: true}, {Name: "3+64 dirty", Prefix: 3, Spare: 64, Status: p.MatchStatus_Error, Dirty: true}}
	vDirtyU = vAll[4]
	vDirtyE = vAll[5]
)

var prefixModel = func() []peg.R {
	var w []peg.R
	for i := 0; i < 4; i++ {
		w = append(w, peg.R{Class: fmt.Sprintf("caller%d", i), Op: p.AstOpCodeType(i), Type: p.AstType_String, Val: fmt.Sprintf("pre%d", i), Pos: 100 + i, Len: i})
	}
	return w
}()

func prefixAst(i int) p.Ast {
	r := prefixModel[i]
	return p.Ast{ClassName: r.Class, OpCode: r.Op, Type: r.Type, Value: r.Val, SourcePosition: p.SourcePosition{Position: r.Pos, Length: r.Len}}
}

// Context builds a starting context.
func (v Variant) Context(src string, pos int, tag interface{}) p.ParserContext {
	ctx := *str.NewStringParserContextWithTag(src, tag)
	if v.Spare >= 0 {
		if v.Prefix+v.Spare == 0 {
			ctx.AstStack = nil
		} else {
			ctx.AstStack = make(p.AstSlice, 0, v.Prefix+v.Spare)
		}
	}
	for i := 0; i < v.Prefix; i++ {
		ctx.AstStack = append(ctx.AstStack, prefixAst(i))
	}
	ctx.Position = pos
	ctx.MatchStatus = v.Status
	if v.Dirty {
		ctx.Quantity = 41
		ctx.Length = 13
		ctx.ClassName = "stale"
	}
	return ctx
}

// State is the model's counterpart of Context.
func (v Variant) State(pos, tag int) peg.S {
	return peg.S{Pos: pos, Tag: tag, List: prefixModel[:v.Prefix:v.Prefix], Low: 0}
}

// objCtx is Context over a source of objects, one for each byte of the text.
func objCtx(v Variant, src string, pos int) p.ParserContext {
	ctx := v.Context("", pos, 5)
	ctx.Slice = obj.NewObjectParserContext(peg.NewChars(src)).Slice
	return ctx
}

// CheckPrefix verifies that the caller's own view of the stack is unchanged.
func (v Variant) CheckPrefix(ctx p.ParserContext) string {
	if len(ctx.AstStack) != v.Prefix {
		return "caller's stack has another length"
	}
	for i := range ctx.AstStack {
		if d := peg.DiffAst(ctx.AstStack[i], prefixModel[i]); d != "" {
			return "entry supplied by the caller was altered: " + d
		}
	}
	return ""
}

// Explore describes an exploration of terms.
type Explore struct {
	Space    *peg.Space
	Inputs   []string
	Starts   bool // also start at every later position
	Variants []Variant
	Rotate   bool // one variant per run, rotating, instead of all
	Env      func() *peg.Env
	Extra    func(w *kit.W, n *peg.Node, src string, in, out p.ParserContext, err error, want peg.Result)
	Wrap     func(n *peg.Node) *peg.Node
	// Ctx builds the starting context (Variant.Context when nil), for sources that are not strings.
	Ctx func(v Variant, src string, pos int) p.ParserContext
}

// Terms runs every term of the space on every input.
func Terms(r *kit.Run, name string, x Explore) {
	if x.Env == nil {
		x.Env = func() *peg.Env { return &peg.Env{} }
	}
	r.Sub(name, x.Space.Len(), func(w *kit.W, i int) {
		n := x.Space.At(i)
		if x.Wrap != nil {
			n = x.Wrap(n)
		}
		n.Number()
		runTerm(w, n, i, x)
	})
}

func runTerm(w *kit.W, n *peg.Node, i int, x Explore) {
	var src string
	var pos int
	var v Variant
	w.Desc(func() string { return fmt.Sprintf("%v on %q at %d (%s)", n, src, pos, v.Name) })
	var last peg.Result
	w.Outcome(func() string {
		return fmt.Sprintf("%v pos %d [%s] %s", last.St, last.S.Pos, peg.ShowR(last.S.List), last.Msg)
	})
	env := x.Env()
	fn := n.Build(env)
	matched, unmatched := false, false
	vi := i
	for _, src = range x.Inputs {
		starts := 0
		if x.Starts {
			starts = len(src)
		}
		for pos = 0; pos <= starts; pos++ {
			var want peg.Result
			have := false
			for k := range x.Variants {
				v = x.Variants[k]
				if x.Rotate {
					if k > 0 {
						break
					}
					vi++
					v = x.Variants[vi%len(x.Variants)]
				}
				if !have || len(want.S.List) > 0 || len(x.Variants) > 1 {
					env.MSeen, env.MVisits = nil, 0
					want = peg.Eval(n, src, v.State(pos, 5), env, k == 0)
					w.States(want.States)
					w.Transitions(want.Steps)
					have = true
				}
				if want.Skip {
					w.Skip()
					continue
				}
				ctx := v.Context(src, pos, 5)
				if x.Ctx != nil {
					ctx = x.Ctx(v, src, pos)
				}
				env.Seen, env.Visits = nil, 0
				out, err := fn(ctx)
				w.Eval()
				last = want
				if d := peg.Diff(out, err, want); d != "" {
					w.Fail("%s", d)
					return
				}
				if d := v.CheckPrefix(ctx); d != "" {
					w.Fail("%s", d)
					return
				}
				if want.St == peg.OK {
					matched = true
					if out.Str != ctx.Str {
						w.Fail("source changed to %q", out.Str)
						return
					}
					if c, ok := ctx.Slice.(peg.Chars); ok {
						if o, ok := out.Slice.(peg.Chars); !ok || o.Off != c.Off || len(o.L) != len(c.L) || peg.Text(out) != src {
							w.Fail("source changed to %v", out.Slice)
							return
						}
					}
					if out.Tag != want.S.Tag {
						w.Fail("tag %v, want %v", out.Tag, want.S.Tag)
						return
					}
				} else {
					unmatched = true
				}
				if len(env.Seen) != len(env.MSeen) || len(env.Seen) > 0 && strings.Join(env.Seen, "|") != strings.Join(env.MSeen, "|") {
					w.Fail("observed calls\n   got %v\n  want %v", env.Seen, env.MSeen)
					return
				}
				if x.Extra != nil {
					x.Extra(w, n, src, ctx, out, err, want)
					if w.Failed() {
						return
					}
				}
				w.See(uint64(want.St)<<32 | uint64(want.S.Pos)<<16 | uint64(len(want.S.List)))
			}
		}
	}
	if matched && unmatched {
		w.Nontrivial()
	}
}

func words(max int, alpha ...string) []string { return kit.NewStrings(max, alpha...).All() }

func strR(class, val string) peg.R { return peg.R{Class: class, Type: p.AstType_String, Val: val} }

// try runs f and turns a panic into a message.
func try(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("panic: %v", x)
		}
	}()
	f()
	return ""
}
