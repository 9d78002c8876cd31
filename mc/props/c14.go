package props

import (
	"errors"
	"fmt"
	"reflect"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C14", Level: "model_checking",
		Bounds: "16 transformers and roll by -9..9 on every list of up to 7 entries with 0..3 spare places, and on lists of 8..40 and 1020..1028 entries, with up to 5000 spare places; every pair of transformers on one shared list; every chain of up to 4 (thorough 5) of 19 transformers (two raising errors) through Trans and through Match on lists of up to 3 entries, on the stack of a running parse; each is applied twice so that a result that shares storage shows; SetValue of every type with 14 values over entries of every type",
		Assumptions: []string{
			"an entry added by push or prepend takes the location of its neighbour (undefined without one)",
		},
		Run: run14,
	})
}

// tr14 is a transformer and its reference on immutable lists.
type tr14 struct {
	name string
	tr   p.TransformerFn
	ref  func(l p.AstSlice) p.AstSlice
	err  string
}

func entry14(i int) p.Ast {
	return p.Ast{ClassName: fmt.Sprintf("c%d", i), OpCode: p.AstOpCodeType(10 + i), Type: p.AstType_Int, Value: int64(i), Address: p.ReflectionBox{Val: reflect.ValueOf(i)}, SourcePosition: p.SourcePosition{Position: 3 * i, Length: i + 1}}
}

func transformers14() []tr14 {
	cp := func(l p.AstSlice) p.AstSlice { return append(p.AstSlice{}, l...) }
	first := func(f func(a *p.Ast)) func(l p.AstSlice) p.AstSlice {
		return func(l p.AstSlice) p.AstSlice {
			l = cp(l)
			if len(l) > 0 {
				f(&l[0])
			}
			return l
		}
	}
	added := p.Ast{ClassName: "added", OpCode: 5, Type: p.AstType_String, Value: "new", Address: p.ReflectionBox{Val: reflect.ValueOf("x")}, SourcePosition: p.SourcePosition{Position: 900, Length: 9}}
	ts := []tr14{
		{name: "Erase", tr: p.Erase, ref: func(l p.AstSlice) p.AstSlice { return nil }},
		{name: "Push", tr: p.Push(added), ref: func(l p.AstSlice) p.AstSlice {
			a := added
			if len(l) > 0 {
				a.SourcePosition = l[len(l)-1].SourcePosition
			}
			return append(cp(l), a)
		}},
		{name: "Prepend", tr: p.Prepend(added), ref: func(l p.AstSlice) p.AstSlice {
			a := added
			if len(l) > 0 {
				a.SourcePosition = l[0].SourcePosition
			}
			return append(p.AstSlice{a}, l...)
		}},
		{name: "Pop", tr: p.Pop, ref: func(l p.AstSlice) p.AstSlice {
			if len(l) == 0 {
				return nil
			}
			return cp(l[:len(l)-1])
		}},
		{name: "Exchange", tr: p.Exchange, ref: func(l p.AstSlice) p.AstSlice {
			l = cp(l)
			if n := len(l); n > 1 {
				l[n-1], l[n-2] = l[n-2], l[n-1]
			}
			return l
		}},
		{name: "Grouping", tr: p.GroupingTransform, ref: func(l p.AstSlice) p.AstSlice {
			return p.AstSlice{{ClassName: ":base:Group", Type: p.AstType_ListOfAst, Value: cp(l)}}
		}},
		{name: "SetOpCode", tr: p.SetOpCode(77), ref: first(func(a *p.Ast) { a.OpCode = 77 })},
		{name: "ChangeClassName", tr: p.ChangeClassName("renamed"), ref: first(func(a *p.Ast) { a.ClassName = "renamed" })},
		{name: "SetOpCodeAndClassName", tr: p.SetOpCodeAndClassName(0, ""), ref: first(func(a *p.Ast) { a.OpCode, a.ClassName = 0, "" })},
		{name: "SetValue", tr: p.SetValue(p.AstType_Bool, true), ref: first(func(a *p.Ast) { a.Type, a.Value = p.AstType_Bool, true })},
		{name: "SetValue(nil)", tr: p.SetValue(p.AstType_Nil, nil), ref: first(func(a *p.Ast) { a.Type, a.Value = p.AstType_Nil, nil })},
		{name: "SetOpCodeAndClassName2", tr: p.SetOpCodeAndClassName(1<<63, "z"), ref: first(func(a *p.Ast) { a.OpCode, a.ClassName = 1<<63, "z" })},
		{name: "TransformError", tr: p.TransformError("e1"), err: "e1"},
		{name: "own error with result", tr: func(_ p.ParserContext, l p.AstSlice) (p.AstSlice, error) {
			return p.AstSlice{entry14(55)}, errors.New("e2")
		}, err: "e2"},
	}
	for _, n := range []int{1, -1, 2, -2, 5, 0} {
		ts = append(ts, roll14(n))
	}
	return ts
}

func roll14(n int) tr14 {
	return tr14{name: fmt.Sprintf("Roll(%d)", n), tr: p.Roll(n), ref: func(l p.AstSlice) p.AstSlice {
		// by single steps: a positive step takes the bottom entry to the top
		l = append(p.AstSlice{}, l...)
		if len(l) < 2 {
			return l
		}
		for k := 0; k < n; k++ {
			l = append(append(p.AstSlice{}, l[1:]...), l[0])
		}
		for k := 0; k > n; k-- {
			l = append(p.AstSlice{l[len(l)-1]}, l[:len(l)-1]...)
		}
		return l
	}}
}

// same14 compares lists; the location of a group entry is not defined.
func same14(a, b p.AstSlice) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if lx, ok := x.Value.(p.AstSlice); ok {
			ly, ok := y.Value.(p.AstSlice)
			if !ok || !same14(lx, ly) {
				return false
			}
			x.Value, y.Value = nil, nil
			if x.ClassName == ":base:Group" {
				x.SourcePosition, y.SourcePosition = p.SourcePosition{}, p.SourcePosition{}
			}
		}
		if x.OpCode != y.OpCode || x.ClassName != y.ClassName || x.Type != y.Type || x.SourcePosition != y.SourcePosition || !sameAny14(x.Value, y.Value) || !sameAny14(x.Address, y.Address) {
			return false
		}
	}
	return true
}

func sameAny14(a, b interface{}) bool {
	switch a.(type) {
	case nil, int64, string, bool:
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func run14(r *kit.Run) {
	ts := transformers14()
	ctx := p.ParserContext{Str: "text", Tag: 3, Slice: objs{}}
	single := func(w *kit.W, t tr14, n, spare int) {
		w.Descf("%s on a list of %d with %d spare", t.name, n, spare)
		full := make(p.AstSlice, 0, n+spare)
		for k := 0; k < n+spare; k++ {
			full = append(full, entry14(k))
		}
		l := full[:n]
		before := append(p.AstSlice{}, l...)
		out, err := t.tr(ctx, l)
		w.Eval()
		w.Transitions(1)
		if !same14(l, before) {
			w.Fail("modified the given list: %s", dump(l))
			return
		}
		if t.err != "" {
			if err == nil || err.Error() != t.err {
				w.Fail("error %v, want %s", err, t.err)
			}
			return
		}
		if err != nil {
			w.Fail("error %v", err)
			return
		}
		want := t.ref(before)
		if !same14(out, want) {
			w.Fail("\n   got %s\n  want %s", dump(out), dump(want))
			return
		}
		if !same14(want, before) {
			w.Nontrivial()
		}
		w.States(1)
		// the same transformer on the same and on another list: the first result stays
		other := append(make(p.AstSlice, 0, 8), entry14(40), entry14(41))
		_, _ = t.tr(ctx, other)
		out2, err2 := t.tr(ctx, l)
		w.Eval()
		if err2 != nil || !same14(out2, want) || !same14(out, want) || !same14(l, before) {
			w.Fail("applied again\n   got %s (%v)\n first %s\n  want %s", dump(out2), err2, dump(out), dump(want))
			return
		}
		if t.name == "Grouping" {
			// a group outlives the list it was made from
			for k := range full {
				full[k] = entry14(90)
			}
			if !same14(out, want) {
				w.Fail("the group shares storage with the given list")
			}
		}
	}
	r.Sub("single", len(ts)*8*4, func(w *kit.W, i int) { single(w, ts[i/32], i/4%8, i%4) })
	// every type with every value, on entries of every type
	type2 := []p.AstType{}
	for t := p.AstType_Nil; t <= p.AstType(60); t++ {
		type2 = append(type2, t)
	}
	vals := []interface{}{nil, false, int64(0), int64(-3), uint64(7), "", "x", 'r', 1.5, p.AstSlice(nil), p.AstSlice{entry14(3)}, p.AstCons{}, (*int)(nil), 0}
	r.Sub("set-value", len(type2)*len(vals)*len(vals), func(w *kit.W, i int) {
		t, v, old := type2[i%len(type2)], vals[i/len(type2)%len(vals)], vals[i/len(type2)/len(vals)]
		for _, ot := range []p.AstType{p.AstType_Nil, t, p.AstType_Any, p.AstType_String} {
			w.Descf("SetValue(%v, %#v) over %v %#v", t, v, ot, old)
			l := p.AstSlice{entry14(0), entry14(1)}
			l[0].Type, l[0].Value = ot, old
			out, err := p.SetValue(t, v)(ctx, l)
			w.Eval()
			w.Transitions(1)
			want := entry14(0)
			want.Type, want.Value = t, v
			if err != nil || len(out) != 2 || !reflect.DeepEqual(out[0].Value, v) || out[0].Type != t || out[0].ClassName != want.ClassName || out[0].OpCode != want.OpCode || out[0].SourcePosition != want.SourcePosition || !same14(out[1:], p.AstSlice{entry14(1)}) {
				w.Fail("%s, %v", dump(out), err)
				return
			}
			if l[0].Type != ot || !reflect.DeepEqual(l[0].Value, old) {
				w.Fail("the given list became %s", dump(l))
				return
			}
		}
		w.States(1)
		w.Nontrivial()
	})
	// two transformers on the same list: neither result depends on the other
	r.Sub("same-list", len(ts)*len(ts)*6*4, func(w *kit.W, i int) {
		spare := []int{0, 1, 3, 16}[i%4]
		n := i / 4 % 6
		a, b := ts[i/24%len(ts)], ts[i/24/len(ts)]
		w.Descf("%s, then %s on the same list of %d with %d spare", a.name, b.name, n, spare)
		l := make(p.AstSlice, 0, n+spare)
		for k := 0; k < n; k++ {
			l = append(l, entry14(k))
		}
		before := append(p.AstSlice{}, l...)
		o1, e1 := a.tr(ctx, l)
		o2, e2 := b.tr(ctx, l)
		w.Eval()
		w.Transitions(2)
		w.States(1)
		if a.err == "" {
			if want := a.ref(before); e1 != nil || !same14(o1, want) {
				w.Fail("the first result is %s (%v) after the second use, want %s", dump(o1), e1, dump(want))
				return
			}
			w.Nontrivial()
		}
		if b.err == "" {
			if want := b.ref(before); e2 != nil || !same14(o2, want) {
				w.Fail("the second result is %s (%v), want %s", dump(o2), e2, dump(want))
				return
			}
		}
		if !same14(l, before) {
			w.Fail("the list became %s", dump(l))
			return
		}
		if a.err == "" && b.err == "" {
			// and the second applied to the result of the first
			want := a.ref(before)
			o3, e3 := b.tr(ctx, o1)
			if e3 != nil || !same14(o3, b.ref(want)) || !same14(o1, want) || !same14(o2, b.ref(before)) || !same14(l, before) {
				w.Fail("applied to the first result: %s (%v), which is now %s; the other result %s", dump(o3), e3, dump(o1), dump(o2))
			}
		}
	})
	r.Sub("roll", 19*8*2, func(w *kit.W, i int) { single(w, roll14(i/16-9), i/2%8, i%2*3) })
	var sizes []int
	for n := 8; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	for n := 1020; n <= 1028; n++ {
		sizes = append(sizes, n)
	}
	r.Sub("long-lists", len(ts)*len(sizes), func(w *kit.W, i int) { single(w, ts[i%len(ts)], sizes[i/len(ts)], i/len(ts)%2) })
	spares := []int{4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 128, 1024, 5000}
	r.Sub("spare", len(ts)*len(spares), func(w *kit.W, i int) {
		for _, n := range []int{0, 1, 2, 3, 5, 9, 17, 64, 200} {
			single(w, ts[i%len(ts)], n, spares[i/len(ts)])
			if w.Failed() {
				return
			}
		}
	})
	r.Sub("long-roll", 40, func(w *kit.W, i int) {
		for _, n := range []int{1, i, i + 1, -i, -i - 1, 2*i + 1, -3*i - 2} {
			single(w, roll14(n), i, 1)
			single(w, roll14(n), i, 2*i+20)
		}
	})
	// chains
	depth := 4
	if r.Thorough {
		depth = 5
	}
	k := len(ts)
	total, pw := 0, 1
	for d := 0; d <= depth; d++ {
		total += pw
		pw *= k
	}
	r.Sub("chains", total, func(w *kit.W, i int) {
		d, pw := 0, 1
		for i >= pw {
			i -= pw
			pw *= k
			d++
		}
		var chain []tr14
		for j := 0; j < d; j++ {
			chain = append(chain, ts[i%k])
			i /= k
		}
		for n := 0; n <= 3; n++ {
			for _, via := range []string{"Trans", "Match"} {
				for _, spare := range []int{0, 8, 200} {
					w.Desc(func() string {
						s := fmt.Sprintf("%s over %d entries (%d spare):", via, n, spare)
						for _, t := range chain {
							s += " " + t.name
						}
						return s
					})
					// reference
					list := p.AstSlice{}
					for j := 0; j < n; j++ {
						list = append(list, entry14(j))
					}
					wantErr, wantCalls := "", 0
					for _, t := range chain {
						wantCalls++
						if t.err != "" {
							wantErr = t.err
							break
						}
						list = t.ref(list)
						w.Transitions(1)
					}
					calls := 0
					var seenBad string
					var trs []p.TransformerFn
					model := p.AstSlice{}
					for j := 0; j < n; j++ {
						model = append(model, entry14(j))
					}
					for _, t := range chain {
						t := t
						trs = append(trs, func(c p.ParserContext, l p.AstSlice) (p.AstSlice, error) {
							calls++
							if !same14(l, model) {
								seenBad = fmt.Sprintf("%s was given %s, want %s", t.name, dump(l), dump(model))
							}
							if t.err == "" {
								model = t.ref(model)
							}
							return t.tr(c, l)
						})
					}
					push := p.LightBaseParser("push", func(c p.ParserContext) (p.ParserContext, error) {
						for j := 0; j < n; j++ {
							c.AstStack = append(c.AstStack, entry14(j))
						}
						c.MatchStatus = p.MatchStatus_Matched
						return c, nil
					})
					var fn p.ParserFn
					if via == "Trans" {
						fn = p.Trans(push, trs...)
					} else {
						fn = p.FlatGroup(push, p.Match(n)(p.Case{If: p.TopIsAny, Let: trs}))
					}
					c := p.ParserContext{AstStack: make(p.AstSlice, 0, 2+spare)}
					c.AstStack = append(c.AstStack, prefixAst(0), prefixAst(1))
					before := append(p.AstSlice{}, c.AstStack...)
					out, err := fn(c)
					w.Eval()
					w.States(1)
					if !same14(c.AstStack, before) {
						w.Fail("modified the entries below: %s", dump(c.AstStack))
						return
					}
					if seenBad != "" {
						w.Fail("%s", seenBad)
						return
					}
					if calls != wantCalls {
						w.Fail("%d transformers were called, want %d", calls, wantCalls)
						return
					}
					if wantErr != "" {
						if err == nil || err.Error() != wantErr || out.MatchStatus != p.MatchStatus_Error {
							w.Fail("%v %v, want error %s", out.MatchStatus, err, wantErr)
							return
						}
						continue
					}
					want := append(append(p.AstSlice{}, before...), list...)
					if err != nil || out.MatchStatus != p.MatchStatus_Matched || !same14(out.AstStack, want) {
						w.Fail("%v %v\n   got %s\n  want %s", out.MatchStatus, err, dump(out.AstStack), dump(want))
						return
					}
					w.Nontrivial()
				}
			}
		}
	})
}
