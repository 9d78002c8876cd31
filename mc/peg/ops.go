package peg

import (
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"
)

// ---- leaves -----------------------------------------------------------------

// Tok is a leaf that reads a prefix of the rest of the source: match returns the number
// of bytes and the text of the token, or a negative number.
func Tok(name, class string, build func() p.ParserFn, match func(rest string) (int, string)) *Op {
	return &Op{Name: name, Class: class,
		Build: func(*Env, []p.ParserFn) p.ParserFn { return build() },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			l, t := match(m.Src[s.Pos:])
			if l < 0 {
				return No, s
			}
			o := s.Push(R{Class: class, Type: p.AstType_String, Val: t, Pos: s.Pos, Len: l})
			o.Pos += l
			return OK, o
		}}
}

// OneChar matches one character accepted by f (an ill-formed byte is U+FFFD).
func OneChar(f func(r rune) bool) func(rest string) (int, string) {
	return func(rest string) (int, string) {
		r, n := utf8.DecodeRuneInString(rest)
		if n == 0 || !f(r) {
			return -1, ""
		}
		return n, string(r)
	}
}

// Prefix matches a literal.
func Prefix(lit string) func(rest string) (int, string) {
	return func(rest string) (int, string) {
		if strings.HasPrefix(rest, lit) {
			return len(lit), lit
		}
		return -1, ""
	}
}

// Seq is the literal.
func Seq(s string) *Op {
	return Tok(fmt.Sprintf("%q", s), ":string:Seq", func() p.ParserFn { return str.Seq(s) }, Prefix(s))
}

// AnyChar is any character.
func AnyChar() *Op {
	return Tok("any", ":string:Any", str.Any, OneChar(func(rune) bool { return true }))
}

// CharClass is the set terminal.
func CharClass(cc ...string) *Op {
	return Tok(fmt.Sprintf("cls%q", cc), ":string:CharClass", func() p.ParserFn { return str.CharClass(cc...) },
		func(rest string) (int, string) {
			for _, c := range cc {
				if strings.HasPrefix(rest, c) {
					return len(c), c
				}
			}
			return -1, ""
		})
}

// CharClassN is the negated set terminal.
func CharClassN(cc ...string) *Op {
	return Tok(fmt.Sprintf("clsN%q", cc), ":string:CharClassN", func() p.ParserFn { return str.CharClassN(cc...) },
		func(rest string) (int, string) {
			for _, c := range cc {
				if strings.HasPrefix(rest, c) {
					return -1, ""
				}
			}
			return OneChar(func(rune) bool { return true })(rest)
		})
}

// CharRange is the range terminal.
func CharRange(lo, hi rune) *Op {
	return Tok(fmt.Sprintf("[%c-%c]", lo, hi), ":string:CharRange",
		func() p.ParserFn { return str.CharRange(p.RuneRange{Start: lo, End: hi}) },
		OneChar(func(r rune) bool { return lo <= r && r <= hi }))
}

// Test is a zero-width leaf.
func Test(name, class string, build func() p.ParserFn, f func(m *M, s S) bool) *Op {
	return &Op{Name: name, Class: class,
		Build: func(*Env, []p.ParserFn) p.ParserFn { return build() },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			if f(m, s) {
				return OK, s
			}
			return No, s
		}}
}

// Start, End and Unmatched assertions.
func Start() *Op {
	return Test("^", ":base:Start", p.Start, func(m *M, s S) bool { return s.Pos == 0 })
}

// End of the source.
func End() *Op {
	return Test("$", ":string:End", str.End, func(m *M, s S) bool { return s.Pos == len(m.Src) })
}

// Never matches nothing.
func Never() *Op {
	return Test("fail", ":base:Unmatched", p.Unmatched, func(m *M, s S) bool { return false })
}

// IsWord is the ASCII word character.
func IsWord(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r == '_' || r == '$'
}

// Boundary tells whether a word boundary lies at a byte position.
func Boundary(src string, pos int, word func(rune) bool) bool {
	before, after := false, false
	if pos > 0 {
		r, _ := utf8.DecodeLastRuneInString(src[:pos])
		before = word(r)
	}
	if pos < len(src) {
		r, _ := utf8.DecodeRuneInString(src[pos:])
		after = word(r)
	}
	return before != after
}

// WordB is the word boundary assertion.
func WordB() *Op {
	return Test("\\b", ":string:WordBoundary", str.WordBoundary, func(m *M, s S) bool { return Boundary(m.Src, s.Pos, IsWord) })
}

// Zero inserts entries.
func Zero(name string, r ...R) *Op {
	return &Op{Name: name, Class: ":base:Zero",
		Build: func(*Env, []p.ParserFn) p.ParserFn {
			var a []p.Ast
			for _, x := range r {
				a = append(a, p.Ast{ClassName: x.Class, OpCode: x.Op, Type: x.Type, Value: x.Val,
					SourcePosition: p.SourcePosition{Position: 77, Length: 7}})
			}
			return p.Zero(a...)
		},
		Eval: func(m *M, n *Node, s S) (Status, S) {
			var w []R
			for _, x := range r {
				x.Pos, x.Len = s.Pos, 0
				w = append(w, x)
			}
			return OK, s.Push(w...)
		}}
}

// Error raises an error.
func Error(msg string) *Op {
	return &Op{Name: "error", Class: ":base:Error",
		Build: func(*Env, []p.ParserFn) p.ParserFn { return p.Error(msg) },
		Eval:  func(m *M, n *Node, s S) (Status, S) { return m.Raise(msg, s) }}
}

// Dirty is a custom parser that consumes and pushes, and then reports a mismatch.
func Dirty() *Op {
	return &Op{Name: "dirty", Class: "dirty",
		Build: func(*Env, []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("dirty", func(ctx p.ParserContext) (p.ParserContext, error) {
				ctx.AstStack = append(ctx.AstStack, p.Ast{ClassName: "dirt", Type: p.AstType_String, Value: "dirt"},
					p.Ast{ClassName: "dirt", Type: p.AstType_String, Value: "dirt2"})
				if ctx.Position < len(Text(ctx)) {
					ctx.Position++
				}
				ctx.Length = 5
				ctx.Quantity = 9
				if t, ok := ctx.Tag.(int); ok {
					ctx.Tag = t + 100
				}
				ctx.MatchStatus = p.MatchStatus_Unmatched
				return ctx, nil
			})
		},
		Eval: func(m *M, n *Node, s S) (Status, S) { return No, s }}
}

// DirtyHere is a custom parser that fails where it began, with as many entries as it began
// with, but other ones, and another tag and quantity.
func DirtyHere() *Op {
	return &Op{Name: "dirtyhere", Class: "dirty",
		Build: func(*Env, []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("dirty", func(ctx p.ParserContext) (p.ParserContext, error) {
				n := make(p.AstSlice, len(ctx.AstStack), len(ctx.AstStack)+4)
				for i := range n {
					n[i] = p.Ast{ClassName: "dirt", Type: p.AstType_String, Value: "dirt"}
				}
				ctx.AstStack, ctx.Length, ctx.Quantity = n, 5, 9
				if t, ok := ctx.Tag.(int); ok {
					ctx.Tag = t + 100
				}
				ctx.MatchStatus = p.MatchStatus_Unmatched
				return ctx, nil
			})
		},
		Eval: func(m *M, n *Node, s S) (Status, S) { return No, s }}
}

// TagInc is a custom parser that reads one character and changes the user tag.
func TagInc(c string) *Op {
	return &Op{Name: "tag+" + c, Class: "tagger",
		Build: func(*Env, []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("tagger", func(ctx p.ParserContext) (p.ParserContext, error) {
				if !strings.HasPrefix(Text(ctx)[ctx.Position:], c) {
					ctx.MatchStatus = p.MatchStatus_Unmatched
					return ctx, nil
				}
				ctx.Length = len(c)
				ctx.AstStack = append(ctx.AstStack, p.Ast{ClassName: "tagger", Type: p.AstType_Int, Value: int64(ctx.Tag.(int)), SourcePosition: ctx.SourcePosition})
				ctx.Position += len(c)
				ctx.Tag = ctx.Tag.(int)*3 + 1
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			})
		},
		Eval: func(m *M, n *Node, s S) (Status, S) {
			if !strings.HasPrefix(m.Src[s.Pos:], c) {
				return No, s
			}
			o := s.Push(R{Class: "tagger", Type: p.AstType_Int, Val: int64(s.Tag), Pos: s.Pos, Len: len(c)})
			o.Pos += len(c)
			o.Tag = s.Tag*3 + 1
			return OK, o
		}}
}

// SeeTag records the tag, the position and the number of entries that reach a parser.
func SeeTag() *Op {
	return &Op{Name: "see", Class: "see",
		Build: func(e *Env, _ []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("see", func(ctx p.ParserContext) (p.ParserContext, error) {
				e.Seen = append(e.Seen, fmt.Sprintf("p:%v@%d/%d %q", ctx.Tag, ctx.Position, len(ctx.AstStack), Text(ctx)))
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			})
		},
		Eval: func(m *M, n *Node, s S) (Status, S) {
			m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("p:%v@%d/%d %q", s.Tag, s.Pos, len(s.List), m.Src))
			return OK, s
		}}
}

// ---- composition ------------------------------------------------------------

func (m *M) seq(kids []*Node, s S) (Status, S) {
	for _, k := range kids {
		st, o := m.Run(k, s)
		if st != OK {
			return st, o
		}
		s = o
	}
	return OK, s
}

// Flat is the sequence.
func Flat(ar int) *Op {
	return &Op{Name: "seq", Arity: ar, Class: ":base:FlatGroup",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.FlatGroup(k...) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			st, o := m.seq(n.Kids, s)
			if st == No {
				return No, s
			}
			return st, o
		}}
}

// Group is the grouping sequence.
func Group(ar int) *Op {
	return &Op{Name: "group", Arity: ar, Class: ":base:Group",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.Group(k...) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			t := s
			t.Low = len(s.List)
			st, o := m.seq(n.Kids, t)
			if st != OK {
				if st == No {
					return No, s
				}
				return st, o
			}
			o = group(m, s, o)
			o.Low = s.Low
			return OK, o
		}}
}

func produced(m *M, s, o S) []R {
	if o.Low < len(s.List) {
		m.Diverge() // a body that removed entries below its own start has no defined product
	}
	return append([]R{}, o.List[len(s.List):]...)
}

func (s S) withTop(base S, top []R) S {
	n := make([]R, len(base.List), len(base.List)+len(top))
	copy(n, base.List)
	s.List = append(n, top...)
	return s
}

func group(m *M, s, o S) S {
	w := produced(m, s, o)
	return o.withTop(s, []R{{Class: ":base:Group", Type: p.AstType_ListOfAst, Val: w, Pos: Any, Len: Any}})
}

// First is the ordered choice.
func First(ar int) *Op {
	return &Op{Name: "first", Arity: ar, Class: ":base:First",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.First(k...) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			for _, k := range n.Kids {
				st, o := m.Run(k, s)
				if st != No {
					return st, o
				}
			}
			return No, s
		}}
}

// ZeroWidthLimit bounds the iterations without consumption of an unbounded repetition.
const ZeroWidthLimit = 40

func (m *M) repeat(min, max int, kids []*Node, s S) (Status, S) {
	cur, count, idle := s, 0, 0
	for max < 0 || count < max {
		st, o := m.seq(kids, cur)
		if st == Err {
			return st, o
		}
		if st == No {
			break
		}
		if max < 0 && o.Pos == cur.Pos {
			idle++
			if idle > ZeroWidthLimit {
				m.Diverge()
			}
		}
		cur = o
		count++
	}
	if min >= 0 && count < min {
		return No, s
	}
	cur.Qty = count
	return OK, cur
}

// Rep is the general repetition.
func Rep(ar, min, max int) *Op {
	return &Op{Name: fmt.Sprintf("rep{%d,%d}", min, max), Arity: ar, Class: ":base:Repeat",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: min, Max: max}, k...) },
		Eval:  func(m *M, n *Node, s S) (Status, S) { return m.repeat(min, max, n.Kids, s) }}
}

func namedRep(name string, ar, min, max int, b func(...p.ParserFn) p.ParserFn) *Op {
	return &Op{Name: name, Arity: ar, Class: ":base:Repeat",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return b(k...) },
		Eval:  func(m *M, n *Node, s S) (Status, S) { return m.repeat(min, max, n.Kids, s) }}
}

// Opt is the optional part.
func Opt(ar int) *Op { return namedRep("opt", ar, 0, 1, p.ZeroOrOnce) }

// Star is zero or more.
func Star(ar int) *Op { return namedRep("star", ar, 0, -1, p.ZeroOrMoreTimes) }

// Plus is one or more.
func Plus(ar int) *Op { return namedRep("plus", ar, 1, -1, p.OneOrMoreTimes) }

// Once is exactly once.
func Once(ar int) *Op { return namedRep("once", ar, 1, 1, p.Once) }

// Ahead is the look-ahead.
func Ahead(ar int, neg bool) *Op {
	name, class, b := "ahead", ":base:LookAhead", p.LookAhead
	if neg {
		name, class, b = "aheadN", ":base:LookAheadN", p.LookAheadN
	}
	return &Op{Name: name, Arity: ar, Class: class,
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return b(k...) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			st, o := m.seq(n.Kids, s)
			if st == Err {
				return st, o
			}
			if (st == OK) != neg {
				return OK, s
			}
			return No, s
		}}
}

// Behind is the look-behind.
func Behind(ar, min, max int, neg bool) *Op {
	name, class, b := "behind", ":base:LookBehind", p.LookBehind
	if neg {
		name, class, b = "behindN", ":base:LookBehindN", p.LookBehindN
	}
	return &Op{Name: fmt.Sprintf("%s{%d,%d}", name, min, max), Arity: ar, Class: class, Multi: true,
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return b(min, max, k...) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			for i := min; i <= max; i++ {
				if s.Pos-i < 0 {
					break
				}
				t := s
				t.Pos -= i
				if m.Trace != nil {
					m.Trace(Event{Before: true, Node: n, Class: class, Pos: t.Pos, N: len(t.List)})
				}
				st, o := m.seq(n.Kids, t)
				if m.Trace != nil {
					pos := o.Pos
					if st != Err {
						pos = t.Pos
					}
					m.Trace(Event{Node: n, Class: class, Pos: pos, N: len(t.List), St: st})
				}
				if st == Err {
					return st, o
				}
				if st == OK {
					if neg {
						return No, s
					}
					return OK, s
				}
			}
			if neg {
				return OK, s
			}
			return No, s
		}}
}

// Lazy is the deferred construction.
func Lazy() *Op {
	return &Op{Name: "indirect", Arity: 1, Class: ":base:Indirect",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.Indirect(func() p.ParserFn { return k[0] }) },
		Eval:  func(m *M, n *Node, s S) (Status, S) { return m.Run(n.Kids[0], s) }}
}

// Cond is the construction-time conditional.
func Cond(b bool) *Op {
	return &Op{Name: fmt.Sprintf("if(%v)", b), Arity: 2, Multi: true,
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.If(b, k[0], k[1]) },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			if b {
				return m.Run(n.Kids[0], s)
			}
			return m.Run(n.Kids[1], s)
		}}
}

// Trans wraps a body with transformers.
func Trans(name string, tr []p.TransformerFn, f func(m *M, s, o S, prod []R) ([]R, string)) *Op {
	return &Op{Name: name, Arity: 1, Class: ":base:Trans",
		Build: func(_ *Env, k []p.ParserFn) p.ParserFn { return p.Trans(k[0], tr...) },
		Eval:  transEval(f)}
}

func transEval(f func(m *M, s, o S, prod []R) ([]R, string)) func(m *M, n *Node, s S) (Status, S) {
	return func(m *M, n *Node, s S) (Status, S) {
		t := s
		t.Low = len(s.List)
		st, o := m.Run(n.Kids[0], t)
		if st == No {
			return No, s
		}
		if st == Err {
			return st, o
		}
		w, e := f(m, s, o, produced(m, s, o))
		if e != "" {
			return m.Raise(e, o)
		}
		o.Low = s.Low
		return OK, o.withTop(s, w)
	}
}

// Erased drops what the body produced.
func Erased() *Op {
	return Trans("erase", []p.TransformerFn{p.Erase}, func(_ *M, _, _ S, w []R) ([]R, string) { return nil, "" })
}

// Concat joins texts.
func Concat() *Op {
	return Trans("concat", []p.TransformerFn{str.Concat}, func(_ *M, _, _ S, w []R) ([]R, string) { return ConcatR(w) })
}

// ConcatR is the reference concatenation.
func ConcatR(w []R) ([]R, string) {
	if len(w) == 0 {
		return []R{{Type: p.AstType_String, Val: "", Pos: Any, Len: Any}}, ""
	}
	t := ""
	for _, x := range w {
		if x.Type != p.AstType_String {
			return nil, "Transformer:Concat: Bad source type:" + x.Type.String()
		}
		t += x.Val.(string)
	}
	return []R{{Class: w[0].Class, Type: p.AstType_String, Val: t, Pos: w[0].Pos, Len: Any}}, ""
}

// Popped drops the last entry.
func Popped() *Op {
	return Trans("pop", []p.TransformerFn{p.Pop}, func(_ *M, _, _ S, w []R) ([]R, string) {
		if len(w) > 0 {
			w = w[:len(w)-1]
		}
		return w, ""
	})
}

// Pushed adds an entry.
func Pushed() *Op {
	x := p.Ast{ClassName: "pushed", Type: p.AstType_String, Value: "+"}
	return Trans("push", []p.TransformerFn{p.Push(x)}, func(_ *M, _, _ S, w []R) ([]R, string) {
		return append(w, R{Class: "pushed", Type: p.AstType_String, Val: "+", Pos: Any, Len: Any}), ""
	})
}

// Prepended adds an entry at the front.
func Prepended() *Op {
	x := p.Ast{ClassName: "prep", Type: p.AstType_String, Value: "^"}
	return Trans("prepend", []p.TransformerFn{p.Prepend(x)}, func(_ *M, _, _ S, w []R) ([]R, string) {
		return append([]R{{Class: "prep", Type: p.AstType_String, Val: "^", Pos: Any, Len: Any}}, w...), ""
	})
}

// Swapped exchanges the last two entries.
func Swapped() *Op {
	return Trans("exchange", []p.TransformerFn{p.Exchange}, func(_ *M, _, _ S, w []R) ([]R, string) {
		if n := len(w); n >= 2 {
			w[n-1], w[n-2] = w[n-2], w[n-1]
		}
		return w, ""
	})
}

// Named changes the class of the first entry.
func Named(name string) *Op {
	return Trans("class", []p.TransformerFn{p.ChangeClassName(name)}, func(_ *M, _, _ S, w []R) ([]R, string) {
		if len(w) > 0 {
			w[0].Class = name
		}
		return w, ""
	})
}

// TransErr fails in the transformer.
func TransErr(msg string) *Op {
	return Trans("transErr", []p.TransformerFn{p.TransformError(msg)}, func(_ *M, _, _ S, w []R) ([]R, string) { return nil, msg })
}

// Probe records what a transformer is given.
func Probe() *Op {
	return &Op{Name: "probe", Arity: 1, Class: ":base:Trans",
		Build: func(e *Env, k []p.ParserFn) p.ParserFn {
			return p.Trans(k[0], func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				e.Seen = append(e.Seen, fmt.Sprintf("t:%v %q %s", ctx.Tag, Text(ctx), valsA(asts)))
				return asts, nil
			})
		},
		Eval: transEval(func(m *M, s, o S, w []R) ([]R, string) {
			m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("t:%v %q %s", s.Tag, m.Src, valsR(w)))
			return w, ""
		})}
}

func valsA(l []p.Ast) string {
	var sb strings.Builder
	for _, a := range l {
		if v, ok := a.Value.(p.AstSlice); ok {
			sb.WriteString("[" + valsA(v) + "]")
		} else {
			fmt.Fprintf(&sb, "%s/%v ", a.ClassName, a.Value)
		}
	}
	return sb.String()
}

func valsR(l []R) string {
	var sb strings.Builder
	for _, a := range l {
		if v, ok := a.Val.([]R); ok {
			sb.WriteString("[" + valsR(v) + "]")
		} else {
			fmt.Fprintf(&sb, "%s/%v ", a.Class, a.Val)
		}
	}
	return sb.String()
}

// MatchTop replaces up to the n newest entries by one, when the newest is the string v.
func MatchTop(n int, v, class string) *Op {
	return matchTop(fmt.Sprintf("match%d(%s)", n, v), n, p.TopIsStr(v), func(top R) bool { return top.Val == v }, class)
}

// MatchPlain replaces up to the n newest entries by one, when the newest is a string that was not made by a rewriting.
func MatchPlain(n int, class string) *Op {
	return matchTop(fmt.Sprintf("match%d(plain)", n), n, func(l p.AstSlice) bool {
		if len(l) == 0 {
			return false
		}
		v, ok := l[len(l)-1].Value.(string)
		return ok && !strings.HasPrefix(v, "<")
	}, func(top R) bool {
		v, ok := top.Val.(string)
		return ok && !strings.HasPrefix(v, "<")
	}, class)
}

// MatchDrop removes up to the n newest entries, when the newest is the string v.
func MatchDrop(n int, v string) *Op {
	return matchTop(fmt.Sprintf("drop%d(%s)", n, v), n, p.TopIsStr(v), func(top R) bool { return top.Val == v }, "")
}

// textOf shows a value of the library and the same value of the machine alike.
func textOf(v interface{}) string {
	t := "["
	switch v := v.(type) {
	case p.AstSlice:
		for _, a := range v {
			t += a.ClassName + "=" + textOf(a.Value) + " "
		}
	case []R:
		for _, a := range v {
			t += a.Class + "=" + textOf(a.Val) + " "
		}
	default:
		return fmt.Sprint(v)
	}
	return t + "]"
}

func matchTop(name string, n int, cond p.MatchCaseIfFn, condR func(top R) bool, class string) *Op {
	return &Op{Name: name, Class: "Match",
		Build: func(*Env, []p.ParserFn) p.ParserFn {
			return p.Match(n)(p.Case{If: cond, Let: []p.TransformerFn{func(_ p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				if class == "" {
					return nil, nil
				}
				t := ""
				for _, a := range asts {
					t += textOf(a.Value)
				}
				return p.AstSlice{{ClassName: class, Type: p.AstType_String, Value: "<" + t + ">"}}, nil
			}}})
		},
		Eval: func(m *M, _ *Node, s S) (Status, S) {
			if len(s.List) == 0 || !condR(s.List[len(s.List)-1]) {
				return No, s
			}
			sp := len(s.List) - n
			if sp < 0 {
				sp = 0
			}
			t := ""
			for _, a := range s.List[sp:] {
				t += textOf(a.Val)
			}
			base := s
			base.List = s.List[:sp]
			if sp < s.Low {
				s.Low = sp
			}
			if class == "" {
				return OK, s.withTop(base, nil)
			}
			return OK, s.withTop(base, []R{{Class: class, Type: p.AstType_String, Val: "<" + t + ">", Pos: 0, Len: 0}})
		}}
}

// ---- fault injection ----------------------------------------------------------

// Trap kinds.
const (
	TrapErrMatched  = iota // matched status with an error value
	TrapErrOnly            // unmatched status with an error value
	TrapStatus             // error status and value
	TrapStatusNil          // error status without an error value
	TrapTransformer        // a transformer raises it
	TrapRuleIter           // the per-iteration call of a BaseParser function raises it
	TrapRuleFinal          // the final call of a BaseParser function raises it
	TrapAssert             // the library's Error assertion
	TrapKinds
)

// TrapError is the error value of the injected fault.
type TrapError struct{ N int }

func (t *TrapError) Error() string { return fmt.Sprintf("trap %d", t.N) }

// TheTrap is the value injected, so that identity can be compared.
var TheTrap = &TrapError{1}

// Trap is a leaf that reads one of the given characters and raises the planned fault at its planned visit.
func Trap(c string) *Op {
	match := func(ctx p.ParserContext) bool { return strings.HasPrefix(Text(ctx)[ctx.Position:], c) }
	return &Op{Name: "trap" + c, Class: "trap",
		Build: func(e *Env, _ []p.ParserFn) p.ParserFn {
			read := p.LightBaseParser("trap", func(ctx p.ParserContext) (p.ParserContext, error) {
				if !match(ctx) {
					ctx.MatchStatus = p.MatchStatus_Unmatched
					return ctx, nil
				}
				ctx.Length = len(c)
				ctx.AstStack = append(ctx.AstStack, p.Ast{ClassName: "trap", Type: p.AstType_String, Value: c, SourcePosition: ctx.SourcePosition})
				ctx.Position += len(c)
				ctx.MatchStatus = p.MatchStatus_Matched
				return ctx, nil
			})
			assert := p.Error(TheTrap.Error())
			fire := false
			tr := func(_ p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				if fire {
					return asts, TheTrap
				}
				return asts, nil
			}
			wrap := p.Trans(read, tr)
			iter := p.BaseParser("trap", func(nm, _ int, ctx p.ParserContext) (p.ParserContext, error) {
				if nm >= 0 && fire {
					return ctx, TheTrap
				}
				return ctx, nil
			}, nil, []p.ParserFn{read}, nil)
			final := p.BaseParser("trap", func(nm, _ int, ctx p.ParserContext) (p.ParserContext, error) {
				if nm < 0 && fire {
					return ctx, TheTrap
				}
				return ctx, nil
			}, nil, []p.ParserFn{read}, nil)
			return func(ctx p.ParserContext) (p.ParserContext, error) {
				e.Visits++
				fire = e.Visits == e.TrapAt
				switch e.TrapKind {
				case TrapTransformer:
					return wrap(ctx)
				case TrapRuleIter:
					return iter(ctx)
				case TrapRuleFinal:
					return final(ctx)
				}
				if !fire {
					return read(ctx)
				}
				switch e.TrapKind {
				case TrapErrMatched:
					ctx.MatchStatus = p.MatchStatus_Matched
					return ctx, TheTrap
				case TrapErrOnly:
					ctx.MatchStatus = p.MatchStatus_Unmatched
					return ctx, TheTrap
				case TrapStatus:
					ctx.MatchStatus = p.MatchStatus_Error
					return ctx, TheTrap
				case TrapStatusNil:
					ctx.MatchStatus = p.MatchStatus_Error
					return ctx, nil
				}
				return assert(ctx)
			}
		},
		Eval: func(m *M, n *Node, s S) (Status, S) {
			e := m.Env
			e.MVisits++
			fire := e.MVisits == e.TrapAt
			hit := strings.HasPrefix(m.Src[s.Pos:], c)
			o := s
			if hit {
				o = s.Push(R{Class: "trap", Type: p.AstType_String, Val: c, Pos: s.Pos, Len: len(c)})
				o.Pos += len(c)
			}
			if fire {
				switch e.TrapKind {
				case TrapTransformer, TrapRuleIter, TrapRuleFinal:
					if hit {
						return m.Raise(TheTrap.Error(), o)
					}
				case TrapStatusNil:
					return m.Raise(NilErr, s)
				default:
					return m.Raise(TheTrap.Error(), s)
				}
			}
			if !hit {
				return No, s
			}
			return OK, o
		}}
}

// ErrInjected is for identity checks.
var ErrInjected = errors.New("injected")
