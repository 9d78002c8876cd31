package peg

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
)

// Chars is a source of objects: one element for each byte of a text. Elements are strings,
// whose equality is the source's own. The backing array goes on behind the end, with elements
// that are not part of the source.
type Chars struct {
	L []interface{}
	// Off is where the source begins in the list it was cut from.
	Off int
}

// The list interface.
func (s Chars) Len() int                         { return len(s.L) }
func (s Chars) Get(i int) interface{}            { return s.L[i] }
func (s Chars) Set(i int, v interface{})         { panic("the source was written to") }
func (s Chars) Reslice(a, b int) p.SliceLike     { return Chars{s.L[a:b], s.Off + a} }
func (s Chars) Copy(a, b int) p.SliceLike        { return Chars{append([]interface{}{}, s.L[a:b]...), 0} }
func (s Chars) Make(l, c int) p.SliceLike        { return Chars{make([]interface{}, l, c), 0} }
func (s Chars) String() string                   { return fmt.Sprint(s.L) }
func (s Chars) ItemEquals(a, b interface{}) bool { return a == b }

// NewChars makes a source of objects.
func NewChars(text string) Chars {
	l := make([]interface{}, len(text), len(text)+2)
	for i := range l {
		l[i] = text[i : i+1]
	}
	copy(l[len(l):cap(l)], []interface{}{"a", "b"})
	return Chars{L: l}
}

// Text is the text of a context's source, whatever its kind.
func Text(ctx p.ParserContext) string {
	if l, ok := ctx.Slice.(Chars); ok {
		var b strings.Builder
		for _, x := range l.L {
			b.WriteString(x.(string))
		}
		return b.String()
	}
	return ctx.Str
}

// objTok is a leaf that reads elements: match returns how many.
func objTok(name, class string, list bool, build func() p.ParserFn, match func(rest string) int) *Op {
	return &Op{Name: "o:" + name, Class: class,
		Build: func(*Env, []p.ParserFn) p.ParserFn { return build() },
		Eval: func(m *M, n *Node, s S) (Status, S) {
			l := match(m.Src[s.Pos:])
			if l < 0 {
				return No, s
			}
			r := R{Class: class, Type: p.AstType_Any, Pos: s.Pos, Len: l}
			if list {
				v := []interface{}{}
				for i := 0; i < l; i++ {
					v = append(v, m.Src[s.Pos+i:s.Pos+i+1])
				}
				r.Type, r.Val = p.AstType_ListOfAny, v
			} else {
				r.Val = m.Src[s.Pos : s.Pos+l]
			}
			o := s.Push(r)
			o.Pos += l
			return OK, o
		}}
}

func one(f func(c string) bool) func(string) int {
	return func(rest string) int {
		if rest != "" && f(rest[:1]) {
			return 1
		}
		return -1
	}
}

func list(text string) []interface{} {
	var l []interface{}
	for i := range text {
		l = append(l, text[i:i+1])
	}
	return l
}

// ObjSeq is the sequence of objects.
func ObjSeq(text string) *Op {
	return objTok(fmt.Sprintf("%q", text), ":object:Seq", true, func() p.ParserFn { return obj.Seq(list(text)...) },
		func(rest string) int {
			if strings.HasPrefix(rest, text) {
				return len(text)
			}
			return -1
		})
}

// ObjAny is any object.
func ObjAny() *Op {
	return objTok("any", ":object:Any", false, obj.Any, one(func(string) bool { return true }))
}

// ObjIs is the set of objects.
func ObjIs(set string) *Op {
	return objTok("["+set+"]", ":object:ObjClass", false, func() p.ParserFn { return obj.ObjClass(list(set)...) },
		one(func(c string) bool { return strings.Contains(set, c) }))
}

// ObjNot is the negated set of objects.
func ObjNot(set string) *Op {
	return objTok("[^"+set+"]", ":object:ObjClassN", false, func() p.ParserFn { return obj.ObjClassN(list(set)...) },
		one(func(c string) bool { return !strings.Contains(set, c) }))
}

// ObjFn is a predicate over objects.
func ObjFn(set string) *Op {
	return objTok("fn["+set+"]", ":object:ObjClassFn", false, func() p.ParserFn {
		return obj.ObjClassFn(func(c interface{}) bool { return strings.Contains(set, c.(string)) })
	}, one(func(c string) bool { return strings.Contains(set, c) }))
}

// ObjEnd is the end of a source of objects.
func ObjEnd() *Op {
	return Test("o:$", ":object:End", obj.End, func(m *M, s S) bool { return s.Pos == len(m.Src) })
}
