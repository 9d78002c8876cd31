package props

import (
	"fmt"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"

	"verif/mc/kit"
)

// watched is a slice source that records the elements read and compares loosely: 'A'
// equals 'a'. Its equality is the source's own, which terminals have to use.
type watched struct {
	l    []interface{}
	base int
	max  *int
	bad  *string
}

func (s watched) Len() int { return len(s.l) }
func (s watched) Get(i int) interface{} {
	if s.base+i > *s.max {
		*s.max = s.base + i
	}
	return s.l[i]
}
func (s watched) Set(i int, v interface{})     { *s.bad = "the source was written to"; s.l[i] = v }
func (s watched) Reslice(a, b int) p.SliceLike { return watched{s.l[a:b], s.base + a, s.max, s.bad} }
func (s watched) Copy(a, b int) p.SliceLike {
	return watched{append([]interface{}{}, s.l[a:b]...), 0, new(int), new(string)}
}
func (s watched) Make(l, c int) p.SliceLike {
	return watched{make([]interface{}, l, c), 0, new(int), new(string)}
}
func (s watched) ItemEquals(a, b interface{}) bool { return eq13(a, b) }

func eq13(a, b interface{}) bool {
	if a == "A" {
		a = "a"
	}
	if b == "A" {
		b = "a"
	}
	return a == b
}

func init() {
	kit.Register(&kit.Check{
		ID: "C13", Level: "exploration",
		Rule:        "one case per terminal instance; each runs on every source list at every position, over four kinds of sources; non-trivial when it matches somewhere and not elsewhere",
		Bounds:      "value sequences of up to 3 and value sets of up to 2 members over {1, \"a\", \"A\" (equal to \"a\" for the source), nil}, all 16 function classes, any, end; value sequences and sets of 4..257 (thorough 1025) values, the source cut off or altered at every place; sources of up to 5 (thorough 6) elements, with spare capacity holding further elements, at every position; custom slice types and AST lists with nested entries; every matched value list is checked not to share storage with the source",
		Assumptions: []string{"elements are comparable"},
		Run:         run13,
	})
}

type case13 struct {
	name string
	mk   func(conv func(interface{}) interface{}) p.ParserFn
	// want returns the consumed count (negative: unmatched) and whether the value is a list.
	want func(rest []interface{}) int
	list bool
	end  bool
}

func run13(r *kit.Run) {
	vals := []interface{}{1, "a", "A", nil}
	tuples := func(max int) [][]interface{} {
		s := kit.NewStrings(max, "0", "1", "2", "3")
		var out [][]interface{}
		for i := 0; i < s.Len(); i++ {
			var t []interface{}
			for _, d := range s.Digits(i) {
				t = append(t, vals[d])
			}
			out = append(out, t)
		}
		return out
	}
	mapAll := func(l []interface{}, conv func(interface{}) interface{}) []interface{} {
		var o []interface{}
		for _, v := range l {
			o = append(o, conv(v))
		}
		return o
	}
	one := func(f func(v interface{}) bool) func(rest []interface{}) int {
		return func(rest []interface{}) int {
			if len(rest) > 0 && f(rest[0]) {
				return 1
			}
			return -1
		}
	}
	member := func(t []interface{}, eq func(a, b interface{}) bool) func(v interface{}) bool {
		return func(v interface{}) bool {
			for _, m := range t {
				if eq(v, m) {
					return true
				}
			}
			return false
		}
	}
	srcLen := 5
	setLen := 2
	if r.Thorough {
		srcLen, setLen = 6, 3
	}
	cases := func(eq func(a, b interface{}) bool) []case13 {
		cs := []case13{
			{name: "Any", mk: func(func(interface{}) interface{}) p.ParserFn { return obj.Any() }, want: one(func(interface{}) bool { return true })},
			{name: "End", end: true, mk: func(func(interface{}) interface{}) p.ParserFn { return obj.End() }, want: func(rest []interface{}) int {
				if len(rest) == 0 {
					return 0
				}
				return -1
			}},
		}
		for _, t := range tuples(3) {
			t := t
			cs = append(cs, case13{name: fmt.Sprintf("Seq%v", t), list: true, mk: func(c func(interface{}) interface{}) p.ParserFn { return obj.Seq(mapAll(t, c)...) }, want: func(rest []interface{}) int {
				if len(rest) < len(t) {
					return -1
				}
				for k := range t {
					if !eq(rest[k], t[k]) {
						return -1
					}
				}
				return len(t)
			}})
		}
		for _, t := range tuples(setLen) {
			t := t
			in := member(t, eq)
			cs = append(cs, case13{name: fmt.Sprintf("ObjClass%v", t), mk: func(c func(interface{}) interface{}) p.ParserFn { return obj.ObjClass(mapAll(t, c)...) }, want: one(in)},
				case13{name: fmt.Sprintf("ObjClassN%v", t), mk: func(c func(interface{}) interface{}) p.ParserFn { return obj.ObjClassN(mapAll(t, c)...) }, want: one(func(v interface{}) bool { return !in(v) })})
		}
		for mask := 0; mask < 16; mask++ {
			mask := mask
			f := func(v interface{}) bool {
				for k, x := range vals {
					if x == v {
						return mask>>k&1 == 1
					}
				}
				return false
			}
			cs = append(cs, case13{name: fmt.Sprintf("ObjClassFn %04b", mask), want: one(f), mk: func(c func(interface{}) interface{}) p.ParserFn {
				return obj.ObjClassFn(func(v interface{}) bool {
					for _, x := range vals {
						if sameVal13(c(x), v) {
							return f(x)
						}
					}
					panic(fmt.Sprintf("the function was called with a foreign value %v", v))
				})
			}})
		}
		return cs
	}
	lists := tuples(srcLen)
	ident := func(v interface{}) interface{} { return v }
	toAst := func(v interface{}) interface{} {
		// distinct locations and opcodes must not matter for equality; "A" differs from "a" here
		switch x := v.(type) {
		case int:
			return p.Ast{ClassName: "i", Type: p.AstType_Int, Value: int64(x)}
		case string:
			return p.Ast{ClassName: "s", Type: p.AstType_ListOfAst, Value: p.AstSlice{{Type: p.AstType_String, Value: x}, {Type: p.AstType_AstCons, Value: p.AstCons{Car: p.Ast{Type: p.AstType_Int, Value: int64(1)}}}}}
		}
		return p.Ast{ClassName: "n"}
	}
	type source struct {
		name string
		eq   func(a, b interface{}) bool
		conv func(interface{}) interface{}
		mk   func(l []interface{}) (p.SliceLike, func() string)
	}
	plain := func(a, b interface{}) bool { return a == b }
	sources := []source{
		{"slice", plain, ident, func(l []interface{}) (p.SliceLike, func() string) {
			o := append(objs{}, l...)
			return o, func() string { return fmt.Sprint([]interface{}(o)) }
		}},
		{"slice with spare capacity", plain, ident, func(l []interface{}) (p.SliceLike, func() string) {
			full := append(append(objs{}, l...), 1, "a", nil, 1)
			return full[:len(l)], func() string { return fmt.Sprint([]interface{}(full)) }
		}},
		{"watched slice", eq13, ident, func(l []interface{}) (p.SliceLike, func() string) {
			max, bad := -1, ""
			s := watched{append([]interface{}{}, l...), 0, &max, &bad}
			return s, func() string {
				if max >= len(l) {
					return "read past the end"
				}
				return bad + fmt.Sprint(s.l)
			}
		}},
		{"AST list", plain, toAst, func(l []interface{}) (p.SliceLike, func() string) {
			o := make(p.AstSlice, 0, len(l)+3)
			for k, v := range l {
				a := toAst(v).(p.Ast)
				a.Position, a.Length, a.OpCode = k*3, k, p.AstOpCodeType(0)
				o = append(o, a)
			}
			return o, func() string { return dump(o) }
		}},
	}
	// long sequences and sets; the source cut off or altered at every place
	var sizes []int
	for n := 4; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 63, 64, 65, 127, 128, 129, 255, 256, 257)
	if r.Thorough {
		sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025)
	}
	r.Sub("sizes", len(sizes)*3, func(w *kit.W, i int) {
		n := sizes[i/3]
		s := sources[i%3]
		var l []interface{}
		for k := 0; k < n; k++ {
			l = append(l, []interface{}{k, fmt.Sprint(k), "a", nil}[k%4])
		}
		seq, set, not := obj.Seq(l...), obj.ObjClass(l...), obj.ObjClassN(l...)
		one := func(name string, fn p.ParserFn, list []interface{}, pos, want int) bool {
			w.Descf("%s of %d values on %v at %d (%s)", name, n, list, pos, s.name)
			src, state := s.mk(list)
			before := state()
			ctx := p.ParserContext{Slice: src, AstStack: p.AstSlice{prefixAst(1)}, Tag: 7}
			ctx.Position, ctx.Length = pos, 9
			out, err := fn(ctx)
			w.Eval()
			w.States(1)
			switch {
			case state() != before:
				w.Fail("the source changed from %s to %s", before, state())
			case err != nil || (want >= 0) != (out.MatchStatus == p.MatchStatus_Matched):
				w.Fail("%v %v, want consumption of %d", out.MatchStatus, err, want)
			case want >= 0 && (out.Position != pos+want || len(out.AstStack) != 2):
				w.Fail("next position %d, want %d; entries %s", out.Position, pos+want, dump(out.AstStack))
			case want >= 0 && name == "Seq":
				v, ok := out.AstStack[1].Value.(p.SliceLike)
				if !ok || v.Len() != n {
					w.Fail("value %v", out.AstStack[1].Value)
					break
				}
				for k := 0; k < n; k++ {
					if v.Get(k) != list[pos+k] {
						w.Fail("element %d of the value is %v, want %v", k, v.Get(k), list[pos+k])
						break
					}
				}
			case want >= 0 && out.AstStack[1].Value != list[pos]:
				w.Fail("value %v, want %v", out.AstStack[1].Value, list[pos])
			}
			return !w.Failed()
		}
		for k := 0; k <= n; k++ {
			// cut off after k, alone and behind other elements
			want := -1
			if k == n {
				want = n
			}
			cut := l[:k:k]
			if !one("Seq", seq, cut, 0, want) || !one("Seq", seq, append([]interface{}{0, "0"}, cut...), 2, want) || !one("Seq", seq, append(cut, "z"), 0, want) {
				return
			}
			if k < n {
				alt := append([]interface{}{}, l...)
				alt[k] = "z"
				if !one("Seq", seq, alt, 0, -1) || !one("Seq", seq, l, k+1, -1) {
					return
				}
				// another value of the sequence in its place
				ds := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256}
				if n <= 40 {
					ds = ds[:0]
					for d := 1; d < n; d++ {
						ds = append(ds, d)
					}
				}
				for _, d := range ds {
					for _, q := range []int{k - d, k + d} {
						if q < 0 || q >= n || l[q] == l[k] {
							continue
						}
						alt := append([]interface{}{}, l...)
						alt[k] = l[q]
						if !one("Seq", seq, alt, 0, -1) {
							return
						}
						alt[q] = l[k]
						if !one("Seq", seq, alt, 0, -1) {
							return
						}
					}
				}
				// each member counts, wherever it stands
				if !one("ObjClass", set, []interface{}{"z", l[k]}, 1, 1) || !one("ObjClassN", not, []interface{}{"z", l[k]}, 1, -1) {
					return
				}
			}
		}
		if !one("ObjClass", set, []interface{}{"z"}, 0, -1) || !one("ObjClassN", not, []interface{}{"z"}, 0, 1) || !one("ObjClass", set, l, n, -1) || !one("ObjClassN", not, l, n, -1) {
			return
		}
		w.Nontrivial()
	})
	for _, s := range sources {
		s := s
		cs := cases(s.eq)
		r.Sub(s.name, len(cs), func(w *kit.W, i int) {
			c := cs[i]
			fn := c.mk(s.conv)
			yes, no := false, false
			for _, l := range lists {
				for pos := 0; pos <= len(l); pos++ {
					w.Descf("%s on %v at %d (%s)", c.name, l, pos, s.name)
					src, state := s.mk(l)
					before := state()
					ctx := p.ParserContext{Slice: src, AstStack: p.AstSlice{prefixAst(1)}, Tag: 7}
					ctx.Position, ctx.Length = pos, 9
					out, err := fn(ctx)
					w.Eval()
					w.States(1)
					n := c.want(l[pos:])
					if now := state(); now != before {
						w.Fail("the source changed from %s to %s", before, now)
						return
					}
					if err != nil || (n >= 0) != (out.MatchStatus == p.MatchStatus_Matched) || n < 0 && out.MatchStatus != p.MatchStatus_Unmatched {
						w.Fail("%v %v, want consumption of %d", out.MatchStatus, err, n)
						return
					}
					if n < 0 {
						no = true
						continue
					}
					yes = true
					if out.Position != pos+n {
						w.Fail("next position %d, want %d", out.Position, pos+n)
						return
					}
					if c.end {
						if len(out.AstStack) != 1 {
							w.Fail("the end assertion left entries")
							return
						}
						continue
					}
					if len(out.AstStack) != 2 {
						w.Fail("entries %s", dump(out.AstStack))
						return
					}
					v := out.AstStack[1].Value
					if !c.list {
						if !sameVal13(v, src.Get(pos)) {
							w.Fail("value %v, want %v", v, src.Get(pos))
							return
						}
						continue
					}
					vl, ok := v.(p.SliceLike)
					if !ok || vl.Len() != n || out.AstStack[1].Type != p.AstType_ListOfAny {
						w.Fail("value %T %v, want a list of %d", v, v, n)
						return
					}
					for k := 0; k < n; k++ {
						if !sameVal13(vl.Get(k), src.Get(pos+k)) {
							w.Fail("element %d is %v, want %v", k, vl.Get(k), src.Get(pos+k))
							return
						}
					}
					// writing to the value must not reach the source
					for k := 0; k < n; k++ {
						vl.Set(k, s.conv("changed"))
					}
					if now := state(); now != before && n > 0 {
						w.Fail("the value shares storage with the source: %s became %s", before, now)
						return
					}
				}
			}
			if yes && no {
				w.Nontrivial()
			}
			w.SeeStr(fmt.Sprint(yes, no))
		})
	}
}

func sameVal13(a, b interface{}) bool {
	x, ok := a.(p.Ast)
	if !ok {
		return a == b
	}
	y, ok := b.(p.Ast)
	return ok && dumpNoPos(x) == dumpNoPos(y)
}

func dumpNoPos(a p.Ast) string {
	a.SourcePosition = p.SourcePosition{}
	return dump(p.AstSlice{a})
}
