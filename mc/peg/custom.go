package peg

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
)

// Custom describes a parser a user builds on the public base: repetition bounds, the other
// properties, what its implementation function does, and its transformers.
type Custom struct {
	Times    *[2]int // nil: not given
	Negative bool
	Exists   bool
	Rewind   bool
	Fn       int
	Tr       int
}

// Behaviours of the implementation function.
const (
	FnNone = iota
	FnLog
	FnPushIter
	FnPushEnd
	FnUnmatch0
	FnUnmatch1
	FnUnmatchEnd
	FnUnmatchOdd
	FnErrIter0
	FnErrIter1
	FnErrEnd
	FnStatusIter
	FnStatusEnd
	FnConsume
	FnConsumeEnd
	FnGroupEnd
	FnTag
	FnMany
	NFn
)

var fnNames = [...]string{"none", "log", "pushIter", "pushEnd", "unmatch0", "unmatch1", "unmatchEnd", "unmatchOdd", "errIter0", "errIter1", "errEnd", "statusIter", "statusEnd", "consume", "consumeEnd", "groupEnd", "tag", "many"}

// Transformers of a custom parser.
const (
	TrNone = iota
	TrSee
	TrTwo
	TrErr
	NTr
)

var trNames = [...]string{"none", "see", "two", "err"}

func (c Custom) String() string {
	s := "custom{"
	if c.Times != nil {
		s += fmt.Sprintf("%d,%d ", c.Times[0], c.Times[1])
	}
	for _, x := range []struct {
		b bool
		n string
	}{{c.Negative, "neg "}, {c.Exists, "exists "}, {c.Rewind, "rewind "}} {
		if x.b {
			s += x.n
		}
	}
	return s + fnNames[c.Fn] + " " + trNames[c.Tr] + "}"
}

// Props are the properties handed to the base, in the given order of kinds.
func (c Custom) Props(order int) []interface{} {
	var w []interface{}
	if c.Times != nil {
		w = append(w, p.Times{Min: c.Times[0], Max: c.Times[1]})
	}
	if c.Negative {
		w = append(w, p.Negative{})
	}
	if c.Exists {
		w = append(w, p.ThereExists{})
	}
	if c.Rewind {
		w = append(w, p.Rewind{})
	}
	for i := 0; order > 0 && i < len(w); i++ { // some other order
		j := (i*3 + order) % len(w)
		w[i], w[j] = w[j], w[i]
	}
	return w
}

// ErrCustom is the error value raised by implementation functions.
var ErrCustom = errors.New("custom error")

// step is one call of the implementation function, on an abstract view of the context:
// it returns the status, the error message, the entries to push, the characters to consume,
// the change of the tag, and whether the own entries are replaced by their joined text.
func (c Custom) step(num, qty int, rest string) (st p.MatchStatusType, err error, push []string, eat, tag int, join bool) {
	st = p.MatchStatus_Matched
	iter := num >= 0
	no := func(b bool) {
		if b {
			st = p.MatchStatus_Unmatched
		}
	}
	switch c.Fn {
	case FnPushIter:
		if iter {
			push = []string{fmt.Sprintf("i%d/%d", qty, num)}
		}
	case FnPushEnd:
		if !iter {
			push = []string{fmt.Sprintf("end%d", qty)}
		}
	case FnUnmatch0:
		push = []string{"gone"}
		no(iter && qty == 0)
	case FnUnmatch1:
		if iter {
			push, tag = []string{"gone?"}, 1
		}
		no(iter && qty == 1)
	case FnUnmatchEnd:
		no(!iter)
	case FnUnmatchOdd:
		no(!iter && qty%2 == 1)
	case FnErrIter0:
		if iter && qty == 0 {
			st, err = p.MatchStatus_Unmatched, ErrCustom
		}
	case FnErrIter1:
		if iter && qty == 1 {
			err = ErrCustom
		}
	case FnErrEnd:
		if !iter {
			st, err = p.MatchStatus_Unmatched, ErrCustom
		}
	case FnStatusIter:
		if iter && qty == 1 {
			st = p.MatchStatus_Error
		}
	case FnStatusEnd:
		if !iter {
			st = p.MatchStatus_Error
		}
	case FnConsume:
		if iter {
			if strings.HasPrefix(rest, "b") {
				eat = 1
				push = []string{"eaten"}
			} else {
				no(true)
			}
		}
	case FnConsumeEnd:
		if !iter {
			if strings.HasPrefix(rest, "b") {
				eat = 1
			} else {
				no(true)
			}
		}
	case FnGroupEnd:
		join = !iter
	case FnTag:
		tag = 1
	case FnMany:
		for i := 0; i < 40; i++ {
			push = append(push, "m")
		}
	}
	return
}

const customClass = "custom"

// Build is the real parser.
func (c Custom) Build(order int) func(e *Env, k []p.ParserFn) p.ParserFn {
	return func(e *Env, k []p.ParserFn) p.ParserFn {
		var fn p.ParserImplFn
		if c.Fn != FnNone {
			fn = func(num, bottom int, ctx p.ParserContext) (p.ParserContext, error) {
				e.Seen = append(e.Seen, fmt.Sprintf("f:%d bottom %d qty %d pos %d tag %v %v %v", num, bottom, ctx.Quantity, ctx.Position, ctx.Tag, ctx.MatchStatus, valsA(ctx.AstStack)))
				st, err, push, eat, tag, join := c.step(num, ctx.Quantity, Text(ctx)[ctx.Position:])
				if join {
					t := valsA(ctx.AstStack[bottom:])
					ctx.AstStack = append(ctx.AstStack[:bottom:bottom], p.Ast{ClassName: "own", Type: p.AstType_String, Value: t})
				}
				for _, x := range push {
					ctx.AstStack = append(ctx.AstStack, p.Ast{ClassName: customClass, Type: p.AstType_String, Value: x})
				}
				ctx.Position += eat
				ctx.Tag = ctx.Tag.(int) + tag
				ctx.MatchStatus = st
				return ctx, err
			}
		}
		var tr []p.TransformerFn
		see := func(name string) p.TransformerFn {
			return func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				e.Seen = append(e.Seen, fmt.Sprintf("%s:%d %v %s", name, ctx.Position, ctx.Tag, valsA(asts)))
				return asts, nil
			}
		}
		switch c.Tr {
		case TrSee:
			tr = []p.TransformerFn{see("t")}
		case TrTwo:
			tr = []p.TransformerFn{see("t"), func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) {
				w := append(p.AstSlice{}, asts...)
				for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
					w[i], w[j] = w[j], w[i]
				}
				return append(w, p.Ast{ClassName: "tr", Type: p.AstType_String, Value: "two"}), nil
			}, see("u")}
		case TrErr:
			tr = []p.TransformerFn{see("t"), func(ctx p.ParserContext, asts p.AstSlice) (p.AstSlice, error) { return asts, ErrCustom }, see("never")}
		}
		return p.BaseParser(customClass, fn, c.Props(order), k, tr)
	}
}

func (c Custom) call(m *M, num, bottom, qty int, s S) (Status, S) {
	st := p.MatchStatus_Matched
	if c.Fn == FnNone {
		return OK, s
	}
	m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("f:%d bottom %d qty %d pos %d tag %v %v %v", num, bottom, qty, s.Pos, s.Tag, st, valsR(s.List)))
	st, err, push, eat, tag, join := c.step(num, qty, m.Src[s.Pos:])
	if join {
		own := valsR(s.List[bottom:])
		s.List = append(append([]R{}, s.List[:bottom]...), R{Class: "own", Type: p.AstType_String, Val: own})
	}
	for _, x := range push {
		s = s.Push(R{Class: customClass, Type: p.AstType_String, Val: x})
	}
	s.Pos += eat
	s.Tag += tag
	if err != nil {
		return m.Raise(err.Error(), s)
	}
	switch st {
	case p.MatchStatus_Error:
		return m.Raise(NilErr, s)
	case p.MatchStatus_Unmatched:
		return No, s
	}
	return OK, s
}

// Eval is the reference: what the properties say.
func (c Custom) Eval(m *M, n *Node, s S) (Status, S) {
	min, max := 1, 1
	if c.Times != nil {
		min, max = c.Times[0], c.Times[1]
	}
	bottom := len(s.List)
	start := s
	start.Low = bottom
	iter := func(i int, cur S) (Status, S) {
		num := 0
		o := cur
		for _, k := range n.Kids {
			st, x := m.Run(k, o)
			if st == Err {
				return st, x
			}
			if st == No {
				if c.Exists {
					continue
				}
				return No, cur
			}
			o = x
			num++
			if c.Exists {
				break
			}
		}
		if c.Exists && len(n.Kids) > 0 && num == 0 {
			return No, cur
		}
		return c.call(m, num, bottom, i, o)
	}
	cur, count, idle := start, 0, 0
	for max < 0 || count < max {
		st, o := iter(count, cur)
		if st == Err {
			return st, o
		}
		if st == No {
			break
		}
		if max < 0 && o.Pos == cur.Pos {
			if idle++; idle > 3 { // no implementation function here stops later than that
				m.Diverge()
			}
		}
		cur = o
		count++
	}
	ok := !(min >= 0 && count < min)
	if c.Negative {
		ok = !ok
	}
	if !ok {
		return No, s
	}
	st, o := c.call(m, -1, bottom, count, cur)
	if st == No {
		return No, s
	}
	if st == Err {
		return st, o
	}
	if c.Rewind {
		o = start
	}
	if c.Tr != TrNone {
		own := produced(m, s, o)
		seen := func(name string) {
			m.Env.MSeen = append(m.Env.MSeen, fmt.Sprintf("%s:%d %v %s", name, s.Pos, s.Tag, valsR(own)))
		}
		seen("t")
		switch c.Tr {
		case TrErr:
			return m.Raise(ErrCustom.Error(), o)
		case TrTwo:
			for i, j := 0, len(own)-1; i < j; i, j = i+1, j-1 {
				own[i], own[j] = own[j], own[i]
			}
			own = append(own, R{Class: "tr", Type: p.AstType_String, Val: "two"})
			seen("u")
		}
		o = o.withTop(s, own)
	}
	o.Low = s.Low
	o.Qty = count
	return OK, o
}

// Defined tells whether the outcome of a combination is settled by its properties: a negated
// repetition that needs several iterations leaves open which of them count when it fails.
func (c Custom) Defined() bool { return !(c.Negative && c.Times != nil && c.Times[0] > 1) }

// CustomOp is the grammar construct.
func CustomOp(c Custom, arity, order int) *Op {
	return &Op{Name: c.String(), Arity: arity, Class: customClass, Build: c.Build(order), Eval: c.Eval}
}

// Light describes a leaf a user builds on the public base for leaves.
type Light struct {
	Match  string // what it reads
	Status p.MatchStatusType
	Err    bool
	Push   bool
	Tag    int
}

func (l Light) String() string {
	return fmt.Sprintf("light{%q %v err=%v push=%v tag+%d}", l.Match, l.Status, l.Err, l.Push, l.Tag)
}

// LightOp is the leaf: when its text is there it reads it and ends with the given status and error.
func LightOp(l Light) *Op {
	return &Op{Name: l.String(), Class: "light",
		Build: func(e *Env, _ []p.ParserFn) p.ParserFn {
			return p.LightBaseParser("light", func(ctx p.ParserContext) (p.ParserContext, error) {
				if !strings.HasPrefix(Text(ctx)[ctx.Position:], l.Match) {
					ctx.MatchStatus = p.MatchStatus_Unmatched
					return ctx, nil
				}
				if l.Push {
					ctx.Length = len(l.Match)
					ctx.AstStack = append(ctx.AstStack, p.Ast{ClassName: "light", Type: p.AstType_String, Value: l.Match, SourcePosition: ctx.SourcePosition})
				}
				ctx.Position += len(l.Match)
				ctx.Tag = ctx.Tag.(int) + l.Tag
				ctx.MatchStatus = l.Status
				if l.Err {
					return ctx, ErrCustom
				}
				return ctx, nil
			})
		},
		Eval: func(m *M, n *Node, s S) (Status, S) {
			if !strings.HasPrefix(m.Src[s.Pos:], l.Match) {
				return No, s
			}
			o := s
			if l.Push {
				o = o.Push(R{Class: "light", Type: p.AstType_String, Val: l.Match, Pos: s.Pos, Len: len(l.Match)})
			}
			o.Pos += len(l.Match)
			o.Tag += l.Tag
			if l.Err {
				return m.Raise(ErrCustom.Error(), o)
			}
			switch l.Status {
			case p.MatchStatus_Error:
				return m.Raise(NilErr, o)
			case p.MatchStatus_Unmatched:
				return No, s
			}
			return OK, o
		}}
}
