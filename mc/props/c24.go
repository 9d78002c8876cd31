package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C24", Level: "model_checking",
		Bounds: "every sequence of up to 4 (thorough 5) operations (set, re-slice, copy, make) on slices of 0..3 entries and all their views, every re-slice up to the capacity, all entries of all views read after each operation; equality on all pairs of 290 entries (all value types, nested pairs and lists, names and texts of 8..300 characters, differing in exactly one part) and transitivity on all triples; entries differing at one place of deep, wide and mixed nests",
		Assumptions: []string{
			"not-a-number and function values are excluded from equality, nodes inside plain lists too",
		},
		Run: run24,
	})
}

// view24 is a view of a storage block in the model.
type view24 struct {
	st       *[]int // entry numbers
	off      int
	len, cap int
}

func run24(r *kit.Run) {
	mk := func(id int) p.Ast {
		return p.Ast{ClassName: fmt.Sprintf("c%d", id), OpCode: p.AstOpCodeType(id), Type: p.AstType_Int, Value: int64(id), SourcePosition: p.SourcePosition{Position: id, Length: 1}}
	}
	zero := -1
	same := func(a interface{}, id int) bool {
		x, ok := a.(p.Ast)
		if !ok {
			return false
		}
		if id == zero {
			return x == p.Ast{}
		}
		return x.ClassName == fmt.Sprintf("c%d", id) && int(x.OpCode) == id && x.Type == p.AstType_Int && x.Value == int64(id) && x.Position == id && x.Length == 1
	}
	type op struct {
		kind, view, a, b int
		text             string
	}
	depth := 4
	if r.Thorough {
		depth = 5
	}
	// Explore by replaying: the operations possible after a history depend on the model state.
	type start struct{ len, cap int }
	starts := []start{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 2}, {1, 3}, {2, 4}, {3, 4}}
	newModel := func(s start) []view24 {
		st := make([]int, s.cap)
		for i := range st {
			st[i] = zero
			if i < s.len {
				st[i] = i + 1
			}
		}
		return []view24{{&st, 0, s.len, s.cap}}
	}
	newReal := func(s start) []p.SliceLike {
		l := make(p.AstSlice, s.len, s.cap)
		for i := range l {
			l[i] = mk(i + 1)
		}
		return []p.SliceLike{l}
	}
	opsOf := func(vs []view24) (out []op) {
		for k, v := range vs {
			for i := 0; i < v.len; i++ {
				out = append(out, op{0, k, i, 0, fmt.Sprintf("v%d.Set(%d)", k, i)})
			}
			for a := 0; a <= v.len; a++ {
				for b := a; b <= v.cap; b++ {
					out = append(out, op{1, k, a, b, fmt.Sprintf("v%d.Reslice(%d,%d)", k, a, b)})
					if b <= v.len {
						out = append(out, op{2, k, a, b, fmt.Sprintf("v%d.Copy(%d,%d)", k, a, b)})
					}
				}
			}
			if k < 2 {
				out = append(out, op{3, k, 0, 0, fmt.Sprintf("v%d.Make(0,0)", k)}, op{3, k, 2, 3, fmt.Sprintf("v%d.Make(2,3)", k)})
			}
		}
		return
	}
	step := func(vs []view24, o op, serial int) []view24 {
		switch o.kind {
		case 0:
			(*vs[o.view].st)[vs[o.view].off+o.a] = 100 + serial
			return vs
		case 1:
			v := vs[o.view]
			return append(vs[:len(vs):len(vs)], view24{v.st, v.off + o.a, o.b - o.a, v.cap - o.a})
		case 2:
			v := vs[o.view]
			st := append([]int{}, (*v.st)[v.off+o.a:v.off+o.b]...)
			return append(vs[:len(vs):len(vs)], view24{&st, 0, o.b - o.a, o.b - o.a})
		default:
			st := make([]int, o.b)
			for i := range st {
				st[i] = zero
			}
			return append(vs[:len(vs):len(vs)], view24{&st, 0, o.a, o.b})
		}
	}
	real := func(vs []p.SliceLike, o op, serial int) []p.SliceLike {
		switch o.kind {
		case 0:
			vs[o.view].Set(o.a, mk(100+serial))
			return vs
		case 1:
			return append(vs[:len(vs):len(vs)], vs[o.view].Reslice(o.a, o.b))
		case 2:
			return append(vs[:len(vs):len(vs)], vs[o.view].Copy(o.a, o.b))
		default:
			return append(vs[:len(vs):len(vs)], vs[o.view].Make(o.a, o.b))
		}
	}
	check := func(w *kit.W, ms []view24, rs []p.SliceLike) {
		for k, v := range ms {
			if rs[k].Len() != v.len {
				w.Fail("v%d has %d entries, want %d", k, rs[k].Len(), v.len)
				return
			}
			if c := cap(rs[k].(p.AstSlice)); c < v.cap {
				w.Fail("v%d has capacity %d, want %d", k, c, v.cap)
				return
			}
			for i := 0; i < v.len; i++ {
				if id := (*v.st)[v.off+i]; !same(rs[k].Get(i), id) {
					w.Fail("v%d.Get(%d) is %v, want entry %d", k, i, rs[k].Get(i), id)
					return
				}
			}
		}
	}
	first := func(s start) []op { return opsOf(newModel(s)) }
	type job struct {
		s start
		o op
	}
	var jobs []job
	for _, s := range starts {
		for _, o := range first(s) {
			jobs = append(jobs, job{s, o})
		}
	}
	r.Sub("histories", len(jobs), func(w *kit.W, i int) {
		j := jobs[i]
		var hist []op
		w.Desc(func() string {
			var t []string
			for _, o := range hist {
				t = append(t, o.text)
			}
			return fmt.Sprintf("slice of %d entries, capacity %d: %s", j.s.len, j.s.cap, strings.Join(t, ", "))
		})
		var explore func()
		explore = func() {
			// replay on fresh storage
			ms, rs := newModel(j.s), newReal(j.s)
			for k, o := range hist {
				ms, rs = step(ms, o, k), real(rs, o, k)
			}
			w.Eval()
			w.States(1)
			w.Transitions(len(hist))
			if check(w, ms, rs); w.Failed() {
				return
			}
			w.Nontrivial()
			if len(hist) >= depth {
				return
			}
			for _, o := range opsOf(ms) {
				hist = append(hist, o)
				explore()
				if w.Failed() {
					return
				}
				hist = hist[:len(hist)-1]
			}
		}
		hist = append(hist, j.o)
		explore()
	})
	r.Sub("sizes", 60, func(w *kit.W, i int) {
		n := i
		if i >= 30 {
			n = 1000 + i
		}
		l := make(p.AstSlice, n)
		for k := range l {
			l[k] = mk(k)
		}
		w.Descf("slice of %d entries", n)
		cp := l.Copy(0, n)
		var none p.AstSlice
		mkd := none.Make(n, n+7)
		if mkd.Len() != n || cap(mkd.(p.AstSlice)) != n+7 || cp.Len() != n {
			w.Fail("length %d capacity %d copy %d", mkd.Len(), cap(mkd.(p.AstSlice)), cp.Len())
			return
		}
		w.Eval()
		w.States(1)
		for k := 0; k < n; k++ {
			v := l.Reslice(k, n)
			v.Set(0, mk(5000+k))
			if !same(l.Get(k), 5000+k) || !same(cp.Get(k), k) || !same(v.Get(0), 5000+k) || !same(mkd.Get(k), zero) {
				w.Fail("entry %d", k)
				return
			}
		}
	})
	equality24(r)
}

// e24 describes an entry in a canonical form: equal forms, equal entries.
type e24 struct {
	form string
	a    p.Ast
}

func equality24(r *kit.Run) {
	type S struct{ A, B int }
	one, two := 1, 1
	leaf := func(class string, t p.AstType, v interface{}, form string) e24 {
		return e24{class + ":" + t.String() + ":" + form, p.Ast{ClassName: class, Type: t, Value: v}}
	}
	var base []e24
	for _, c := range []string{"", "x", "X"} {
		base = append(base,
			leaf(c, p.AstType_Nil, nil, "nil"), leaf(c, p.AstType_Any, nil, "nil"),
			leaf(c, p.AstType_Rune, 'a', "rune a"), leaf(c, p.AstType_Int, int64(97), "int 97"), leaf(c, p.AstType_Uint, uint64(97), "uint 97"),
			leaf(c, p.AstType_Float, 97.0, "float 97"), leaf(c, p.AstType_Bool, true, "true"), leaf(c, p.AstType_String, "a", "a"))
	}
	base = append(base,
		leaf("x", p.AstType_Rune, 'b', "rune b"), leaf("x", p.AstType_Int, int64(0), "int 0"), leaf("x", p.AstType_Int, int64(math.MinInt64), "int min"),
		leaf("x", p.AstType_Uint, uint64(math.MaxUint64), "uint max"), leaf("x", p.AstType_Uint, uint64(0), "uint 0"),
		leaf("x", p.AstType_Float, math.Inf(1), "inf"), leaf("x", p.AstType_Float, math.Inf(-1), "-inf"), leaf("x", p.AstType_Float, 97.00000000000001, "float 97+"),
		leaf("x", p.AstType_Bool, false, "false"), leaf("x", p.AstType_String, "", "empty"), leaf("x", p.AstType_String, "A", "A"), leaf("x", p.AstType_String, "a ", "a "),
		leaf("x", p.AstType_Any, S{1, 2}, "S12"), leaf("x", p.AstType_Any, S{1, 3}, "S13"), leaf("x", p.AstType_Any, &S{1, 2}, "&S12"),
		leaf("x", p.AstType_Any, "a", "a"), leaf("x", p.AstType_Any, int64(97), "int 97"), leaf("x", p.AstType_Any, 97, "go int 97"),
		leaf("x", p.AstType_Any, map[string]int{"a": 1}, "map a1"), leaf("x", p.AstType_Any, map[string]int{"a": 2}, "map a2"), leaf("x", p.AstType_Any, []int{1}, "ints 1"),
		leaf("x", p.AstType_ListOfAny, []interface{}{int64(1), "a"}, "[1 a]"), leaf("x", p.AstType_ListOfAny, []interface{}{int64(1), "b"}, "[1 b]"), leaf("x", p.AstType_ListOfAny, []interface{}{}, "[]"),
		leaf("x", p.AstType_ListOfAny, []interface{}{int64(1)}, "[1]"), leaf("x", p.AstType_ListOfAny, []interface{}{uint64(1)}, "[u1]"), leaf("x", p.AstType_Any, []interface{}{int64(1)}, "[1]"),
		leaf("x", p.AstType_ListOfAny, []interface{}{[]interface{}{nil}}, "[[nil]]"), leaf("x", p.AstType_Any, &one, "&1"), leaf("x", p.AstType_Any, &two, "&1"))
	cons := func(class string, x, y e24) e24 {
		return e24{class + ":cons(" + x.form + " . " + y.form + ")", p.Ast{ClassName: class, Type: p.AstType_AstCons, Value: p.AstCons{Car: x.a, Cdr: y.a}}}
	}
	list := func(class string, l ...e24) e24 {
		var fs []string
		var s p.AstSlice
		for _, e := range l {
			fs = append(fs, e.form)
			s = append(s, e.a)
		}
		if len(l) == 0 {
			s = p.AstSlice{}
		}
		return e24{class + ":list(" + strings.Join(fs, ", ") + ")", p.Ast{ClassName: class, Type: p.AstType_ListOfAst, Value: s}}
	}
	few := []e24{base[8], base[9], base[10], base[14], base[15], base[7], base[0], base[16], base[1]}
	// long names and texts that differ at one place
	for _, n := range []int{8, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 130, 300} {
		for _, at := range []int{-1, 0, n / 2, n - 1, n} {
			b := []byte(strings.Repeat("n", n))
			if at == n {
				b = append(b, 'n')
			} else if at >= 0 {
				b[at] = 'm'
			}
			s := string(b)
			base = append(base, leaf(s, p.AstType_Int, int64(1), "int 1"), leaf("x", p.AstType_String, s, s))
		}
	}
	all := append([]e24{}, base...)
	all = append(all, list("x"), list("y"), e24{"x:list()", p.Ast{ClassName: "x", Type: p.AstType_ListOfAst, Value: p.AstSlice(nil)}})
	for _, a := range few {
		all = append(all, list("x", a), list("x", a, a), list("x", list("x", a)), list("y", a))
		for _, b := range few {
			all = append(all, cons("x", a, b), list("x", a, b))
		}
		all = append(all, cons("y", a, a), cons("x", cons("x", a, a), a), cons("x", a, cons("x", a, a)), list("x", a, a, few[0]), cons("x", list("x", a), a), list("x", cons("x", a, a)), list("x", list("x"), a))
	}
	// location variants: equality must not see them
	moved := func(a p.Ast, k int) p.Ast {
		a.OpCode += p.AstOpCodeType(k)
		a.SourcePosition = p.SourcePosition{Position: 7 * k, Length: 3 * k}
		if k%2 == 1 {
			a.Address = p.ReflectionBox{Val: reflect.ValueOf(k)}
		}
		return a
	}
	var deepMoved func(a p.Ast, k int) p.Ast
	deepMoved = func(a p.Ast, k int) p.Ast {
		a = moved(a, k)
		switch v := a.Value.(type) {
		case p.AstCons:
			a.Value = p.AstCons{Car: deepMoved(v.Car, k+1), Cdr: deepMoved(v.Cdr, k+2)}
		case p.AstSlice:
			l := make(p.AstSlice, 0, len(v)+k)
			for i := range v {
				l = append(l, deepMoved(v[i], k+3+i))
			}
			a.Value = l
		}
		return a
	}
	slices := []p.AstSlice{nil, {}, {{ClassName: "other"}}}
	r.Sub("pairs", len(all)*len(all), func(w *kit.W, i int) {
		x, y := all[i%len(all)], all[i/len(all)]
		w.Descf("%s = %s", x.form, y.form)
		want := x.form == y.form
		for k, s := range slices {
			for _, pr := range [][2]p.Ast{{x.a, y.a}, {deepMoved(x.a, k), deepMoved(y.a, k+1)}} {
				got, back := s.ItemEquals(pr[0], pr[1]), s.ItemEquals(pr[1], pr[0])
				w.Eval()
				w.States(1)
				w.Transitions(1)
				if got != want || back != want {
					w.Fail("%v, reversed %v, want %v", got, back, want)
					return
				}
			}
		}
		if want {
			w.Nontrivial()
		}
		w.SeeStr(fmt.Sprint(want))
	})
	// Setting an entry over an equal, or another, one takes all of the new one.
	r.Sub("overwrites", len(all)*len(all), func(w *kit.W, i int) {
		x, y := all[i%len(all)], all[i/len(all)]
		w.Descf("%s over %s", y.form, x.form)
		for k := 0; k < 3; k++ {
			for n := 1; n < 4; n++ {
				l := make(p.AstSlice, n)
				v := deepMoved(y.a, k+1)
				l.Set(n-1, deepMoved(x.a, k))
				l.Set(n-1, v)
				g := l.Get(n - 1).(p.Ast)
				w.Eval()
				w.States(1)
				if !reflect.DeepEqual(g, v) {
					w.Fail("get gives %s, want %s", dump(p.AstSlice{g}), dump(p.AstSlice{v}))
					return
				}
			}
		}
		w.Nontrivial()
	})
	r.Sub("triples", len(all), func(w *kit.W, i int) {
		x := all[i]
		w.Descf("%s in all triples", x.form)
		s := slices[0]
		for _, y := range all {
			xy := s.ItemEquals(x.a, y.a)
			if !xy {
				continue
			}
			for _, z := range all {
				if s.ItemEquals(y.a, z.a) != s.ItemEquals(x.a, z.a) {
					w.Fail("not transitive with %s, %s", y.form, z.form)
				}
				w.Eval()
			}
		}
		w.States(1)
	})
	// one difference somewhere in a deep or wide nest
	r.Sub("nests", 8*8, func(w *kit.W, i int) {
		n := []int{1, 2, 3, 7, 16, 40, 100, 300}[i/8]
		shape := i % 8
		build := func(at, what int) p.Ast {
			count := 0
			leafAt := func() p.Ast {
				a := p.Ast{ClassName: "l", Type: p.AstType_Int, Value: int64(5)}
				if count == at {
					switch what {
					case 0:
						a.ClassName = "m"
					case 1:
						a.Type, a.Value = p.AstType_Uint, uint64(5)
					case 2:
						a.Value = int64(6)
					case 3:
						a.Type = p.AstType_Any
					case 4:
						a.Position, a.Length = 4, 4 // no difference
					}
				}
				count++
				return a
			}
			node := func(l p.AstSlice) p.Ast { return p.Ast{ClassName: "n", Type: p.AstType_ListOfAst, Value: l} }
			pair := func(x, y p.Ast) p.Ast {
				return p.Ast{ClassName: "p", Type: p.AstType_AstCons, Value: p.AstCons{Car: x, Cdr: y}}
			}
			switch shape {
			case 0: // wide list
				var l p.AstSlice
				for k := 0; k < n; k++ {
					l = append(l, leafAt())
				}
				return node(l)
			case 1: // deep list
				a := leafAt()
				for k := 1; k < n; k++ {
					a = node(p.AstSlice{a, leafAt()})
				}
				return a
			case 2:
				a := leafAt()
				for k := 1; k < n; k++ {
					a = node(p.AstSlice{leafAt(), a})
				}
				return a
			case 3:
				a := leafAt()
				for k := 1; k < n; k++ {
					a = pair(a, leafAt())
				}
				return a
			case 4:
				a := leafAt()
				for k := 1; k < n; k++ {
					a = pair(leafAt(), a)
				}
				return a
			case 5:
				a := leafAt()
				for k := 1; k < n; k++ {
					if k%2 == 0 {
						a = pair(leafAt(), a)
					} else {
						a = node(p.AstSlice{a, leafAt()})
					}
				}
				return a
			case 6: // list of pairs
				var l p.AstSlice
				for k := 0; k < n; k += 2 {
					l = append(l, pair(leafAt(), leafAt()))
				}
				return node(l)
			default: // list of lists
				var l p.AstSlice
				for k := 0; k < n; k += 3 {
					l = append(l, node(p.AstSlice{leafAt(), leafAt(), leafAt()}))
				}
				return node(l)
			}
		}
		ref := build(-1, 0)
		w.Descf("nest of shape %d with %d leaves", shape, n)
		for at := 0; at < n; at++ {
			for what := 0; what < 5; what++ {
				o := build(at, what)
				got, back := slices[0].ItemEquals(ref, o), slices[0].ItemEquals(o, ref)
				w.Eval()
				w.States(1)
				if want := what == 4; got != want || back != want {
					w.Fail("difference %d at leaf %d: %v %v, want %v", what, at, got, back, want)
					return
				}
			}
		}
		w.Nontrivial()
	})
}
