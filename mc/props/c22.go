package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C22", Level: "model_checking",
		Bounds: "case lists of up to 2 cases (7 conditions x 9 results; thorough: 3 cases) and of 3 cases with fewer results, on every stack of 0..4 entries with 0 or 3 spare places, every n in 0..6; each of the 7 ready-made conditions with every list of up to 2 (thorough 3) reference values on stacks topped by each of 58 values of 20 dynamic types (among them numbers that differ in the last bit only); lists of up to 600 reference values in 5 orders with every place deciding; up to 130 cases, each one in turn the first that holds; up to 70000 spare places; stacks up to 40 and around 1024 entries; match steps inside groups, alternatives and repetitions",
		Assumptions: []string{
			"an entry's type tag is that of its value, Any, or not set",
			"conditions are free of side effects on the stack",
		},
		Run: run22,
	})
}

type myStr22 string

func values22() []interface{} {
	x := 1
	return []interface{}{
		nil, 'a', 'b', rune(0), int64(97), int64(0), int64(-1), int64(math.MinInt64), uint64(97), uint64(0), uint64(math.MaxUint64),
		float64(97), 0.0, math.Copysign(0, -1), math.NaN(), math.Inf(1), true, false, "a", "", "b", "97", int(97), uint8(97), float32(97), int16(0),
		myStr22("a"), []int{1}, []int{1}, []int{2}, []interface{}{int64(1)}, map[string]int{"a": 1}, &x, struct{ A int }{1},
		0.1, math.Nextafter(0.1, 1), 0.1 + 1e-10, float64(1 << 24), float64(1<<24 + 1), 1e300, 1e301, 5e-324,
		int64(1 << 53), int64(1<<53 + 1), int64(1<<32 + 97), uint64(1 << 53), uint64(1<<53 + 1), uint64(1<<32 + 97), rune(97 + 1<<16), "A", "a\x00", "a ",
		p.AstSlice{{ClassName: "z"}}, p.AstSlice{}, p.AstCons{}, []byte("a"), [1]int{1}, errors.New("a"),
	}
}

func typ22(v interface{}) p.AstType {
	switch v.(type) {
	case nil:
		return p.AstType_Nil
	case rune:
		return p.AstType_Rune
	case int64:
		return p.AstType_Int
	case uint64:
		return p.AstType_Uint
	case float64:
		return p.AstType_Float
	case bool:
		return p.AstType_Bool
	case string:
		return p.AstType_String
	case p.AstCons:
		return p.AstType_AstCons
	case p.AstSlice:
		return p.AstType_ListOfAst
	}
	return p.AstType_Any
}

type if22 struct {
	name string
	fn   p.MatchCaseIfFn
	ref  func(l p.AstSlice) bool
}

func run22(r *kit.Run) {
	top := func(l p.AstSlice, f func(v interface{}) bool) bool { return len(l) > 0 && f(l[len(l)-1].Value) }
	ifs := []if22{
		{"str a", p.TopIsStr("a"), func(l p.AstSlice) bool {
			return top(l, func(v interface{}) bool { s, ok := v.(string); return ok && s == "a" })
		}},
		{"int 1,2", p.TopIsInt(1, 2), func(l p.AstSlice) bool {
			return top(l, func(v interface{}) bool { n, ok := v.(int64); return ok && (n == 1 || n == 2) })
		}},
		{"is 1", p.TopIs(int64(1)), func(l p.AstSlice) bool {
			return top(l, func(v interface{}) bool { n, ok := v.(int64); return ok && n == 1 })
		}},
		{"any", p.TopIsAny, func(p.AstSlice) bool { return true }},
		{"never", func(p.AstSlice) bool { return false }, func(p.AstSlice) bool { return false }},
		{"empty", func(l p.AstSlice) bool { return len(l) == 0 }, func(l p.AstSlice) bool { return len(l) == 0 }},
		{"class c1", func(l p.AstSlice) bool { return len(l) > 0 && l[len(l)-1].ClassName == "c1" }, func(l p.AstSlice) bool { return len(l) > 0 && l[len(l)-1].ClassName == "c1" }},
	}
	var lets [][]tr14
	ts := map[string]tr14{}
	for _, t := range transformers14() {
		ts[t.name] = t
	}
	for _, names := range []string{"", "Erase", "Push", "Grouping", "TransformError", "Exchange,Pop", "Push,own error with result", "SetOpCode,Roll(1)", "Erase,Push,Prepend"} {
		var c []tr14
		for _, n := range strings.Split(names, ",") {
			if n != "" {
				c = append(c, ts[n])
			}
		}
		lets = append(lets, c)
	}
	var stacks []p.AstSlice
	vals := []interface{}{"a", int64(1), int64(2)}
	for n := 0; n <= 4; n++ {
		for _, v := range vals {
			var l p.AstSlice
			for i := 0; i < n; i++ {
				a := entry14(i)
				a.Value = vals[(i+n)%3]
				if i == n-1 {
					a.Value = v
				}
				a.Type = typ22(a.Value)
				l = append(l, a)
			}
			stacks = append(stacks, l)
			if n == 0 {
				break
			}
		}
	}
	type c22 struct{ i, l int }
	check := func(w *kit.W, cs []c22, n int, l p.AstSlice, spare int) {
		w.Desc(func() string {
			var s []string
			for _, c := range cs {
				var t []string
				for _, x := range lets[c.l] {
					t = append(t, x.name)
				}
				s = append(s, fmt.Sprintf("%s:%v", ifs[c.i].name, t))
			}
			return fmt.Sprintf("Match(%d) %v on %s, %d spare", n, s, dump(l), spare)
		})
		evaluated := 0
		sawOther := ""
		var cases []p.Case
		for k, c := range cs {
			k, c := k, c
			var let []p.TransformerFn
			for _, x := range lets[c.l] {
				let = append(let, x.tr)
			}
			cases = append(cases, p.Case{If: func(a p.AstSlice) bool {
				if evaluated != k {
					sawOther = fmt.Sprintf("condition %d evaluated after %d conditions", k, evaluated)
				}
				evaluated++
				return ifs[c.i].fn(a)
			}, Let: let})
		}
		// reference
		chosen := -1
		for k, c := range cs {
			if ifs[c.i].ref(l) {
				chosen = k
				break
			}
		}
		want, wantErr := l, ""
		if chosen >= 0 {
			at := len(l) - n
			if at < 0 {
				at = 0
			}
			sec := l[at:]
			for _, t := range lets[cs[chosen].l] {
				if t.err != "" {
					wantErr = t.err
					break
				}
				sec = t.ref(sec)
			}
			want = append(append(p.AstSlice{}, l[:at]...), sec...)
		}
		given := append(make(p.AstSlice, 0, len(l)+spare), l...)
		ctx := *str.NewStringParserContextWithTag("abc", 9)
		ctx.Position = 2
		ctx.AstStack = given
		fn := p.Match(n)(cases...)
		var first p.AstSlice
		for turn := 0; turn < 2; turn++ {
			evaluated, sawOther = 0, ""
			out, err := fn(ctx)
			w.Eval()
			w.States(1)
			w.Transitions(len(cs) + 1)
			need := chosen + 1
			if chosen < 0 {
				need = len(cs)
			}
			switch {
			case sawOther != "":
				w.Fail("%s", sawOther)
			case evaluated != need:
				w.Fail("%d conditions evaluated, want %d", evaluated, need)
			case !same14(given, l):
				w.Fail("the caller's stack was modified: %s", dump(given))
			case wantErr != "":
				if err == nil || err.Error() != wantErr || out.MatchStatus != p.MatchStatus_Error {
					w.Fail("%v %v, want error %s", out.MatchStatus, err, wantErr)
				}
			case err != nil:
				w.Fail("unexpected error %v", err)
			case chosen < 0:
				if out.MatchStatus != p.MatchStatus_Unmatched {
					w.Fail("%v, want unmatched", out.MatchStatus)
				} else if out.Position != 2 || !same14(out.AstStack, l) || out.Str != "abc" || out.Tag != 9 {
					w.Fail("unmatched, but context changed: position %d stack %s", out.Position, dump(out.AstStack))
				}
			default:
				if out.MatchStatus != p.MatchStatus_Matched || out.Position != 2 || out.Str != "abc" || out.Tag != 9 {
					w.Fail("%v at %d, want matched at 2", out.MatchStatus, out.Position)
				} else if !same14(out.AstStack, want) {
					w.Fail("stack\n   got %s\n  want %s", dump(out.AstStack), dump(want))
				}
				w.SeeStr(dump(out.AstStack))
				if turn == 0 {
					first = out.AstStack
				} else if !same14(first, want) {
					w.Fail("the first result was changed by the second call: %s", dump(first))
				}
			}
			if w.Failed() {
				return
			}
		}
		if chosen > 0 {
			w.Nontrivial()
		}
	}
	nc := len(ifs) * len(lets)
	at := func(i int) c22 { return c22{i % len(ifs), i / len(ifs)} }
	all := func(w *kit.W, cs []c22) {
		for _, l := range stacks {
			for n := 0; n <= 6; n++ {
				for _, spare := range []int{0, 3} {
					if check(w, cs, n, l, spare); w.Failed() {
						return
					}
				}
			}
		}
	}
	r.Sub("no-cases", 1, func(w *kit.W, _ int) { all(w, nil) })
	r.Sub("one-case", nc, func(w *kit.W, i int) { all(w, []c22{at(i)}) })
	r.Sub("two-cases", nc*nc, func(w *kit.W, i int) { all(w, []c22{at(i % nc), at(i / nc)}) })
	few := 3
	if r.Thorough {
		few = len(lets)
	}
	ni := len(ifs)
	r.Sub("three-cases", ni*ni*ni*few*few, func(w *kit.W, i int) {
		j := i / ni / ni / ni
		all(w, []c22{{i % ni, j % few}, {i / ni % ni, j / few % few}, {i / ni / ni % ni, (j + 2) % len(lets)}})
	})
	// deep stacks
	r.Sub("deep", 3*60, func(w *kit.W, i int) {
		size := []int{30, 1000, 1024}[i%3] + i/3%30 - 10
		var l p.AstSlice
		for k := 0; k < size; k++ {
			l = append(l, entry14(k))
		}
		for _, n := range []int{0, 1, 2, 5, size - 1, size, size + 1, 3 * size} {
			for li := range lets {
				if check(w, []c22{{4, 0}, {3, li}}, n, l, i/90*7); w.Failed() {
					return
				}
			}
		}
	})
	// many cases, the one at every place deciding
	r.Sub("many-cases", 130, func(w *kit.W, i int) {
		for k := 0; k <= i; k += 1 + i/40 {
			for _, pat := range []int{0, 1, 2} {
				var cs []c22
				for j := 0; j < i; j++ {
					c := c22{4, (j + i) % len(lets)}
					if pat == 2 && j > k { // later ones would match as well
						c.i = 3
					}
					if j == k {
						c.i = 3
						if pat == 1 {
							c.i = 0
						}
					}
					cs = append(cs, c)
				}
				for s := 0; s < 3; s++ {
					if check(w, cs, (i+k)%5, stacks[(i+k+s*3)%len(stacks)], 3*s); w.Failed() {
						return
					}
				}
			}
		}
	})
	// much spare room
	r.Sub("spare", 30, func(w *kit.W, i int) {
		spare := []int{15, 64, 255, 1023, 1024, 1025, 2047, 2049, 5000, 70000}[i/3]
		for li := range lets {
			for k, l := range stacks {
				if k%3 == i%3 {
					for n := 0; n <= 6; n++ {
						if check(w, []c22{{4, 0}, {3, li}}, n, l, spare); w.Failed() {
							return
						}
					}
				}
			}
		}
	})
	conditions22(r)
	nested22(r)
}

// conditions22 compares the ready-made conditions with dynamic type and equality.
func conditions22(r *kit.Run) {
	pool := values22()
	refs := map[string][]interface{}{}
	for _, v := range pool {
		switch v.(type) {
		case rune, int64, uint64, float64, bool, string:
			k := fmt.Sprintf("%T", v)
			refs[k] = append(refs[k], v)
		}
	}
	mk := func(kind string, vs []interface{}) p.MatchCaseIfFn {
		switch kind {
		case "int32":
			var l []rune
			for _, v := range vs {
				l = append(l, v.(rune))
			}
			return p.TopIsRune(l...)
		case "int64":
			var l []int64
			for _, v := range vs {
				l = append(l, v.(int64))
			}
			return p.TopIsInt(l...)
		case "uint64":
			var l []uint64
			for _, v := range vs {
				l = append(l, v.(uint64))
			}
			return p.TopIsUint(l...)
		case "float64":
			var l []float64
			for _, v := range vs {
				l = append(l, v.(float64))
			}
			return p.TopIsFloat(l...)
		case "bool":
			var l []bool
			for _, v := range vs {
				l = append(l, v.(bool))
			}
			return p.TopIsBool(l...)
		case "string":
			var l []string
			for _, v := range vs {
				l = append(l, v.(string))
			}
			return p.TopIsStr(l...)
		}
		return p.TopIs(vs...)
	}
	eq := func(kind string, v, z interface{}) bool {
		if kind == "is" {
			return reflect.DeepEqual(v, z)
		}
		return reflect.TypeOf(v) == reflect.TypeOf(z) && v == z
	}
	kinds := []string{"int32", "int64", "uint64", "float64", "bool", "string", "is"}
	refs["is"] = pool
	// long lists of reference values in several orders, every place deciding
	of := map[string]func(k int) interface{}{
		"int32": func(k int) interface{} { return rune(k * 7) }, "int64": func(k int) interface{} { return int64(k*13 - 40) }, "uint64": func(k int) interface{} { return uint64(k) << 40 },
		"float64": func(k int) interface{} { return float64(k)/8 - 3 }, "bool": func(k int) interface{} { return false }, "string": func(k int) interface{} { return fmt.Sprintf("%c%d", 'a'+k%26, k) },
		"is": func(k int) interface{} {
			return []interface{}{int64(k), fmt.Sprint(k), uint64(k), float64(k), rune(k), k, []int{k}, p.Ast{ClassName: fmt.Sprint(k)}}[k%8]
		},
	}
	orders := []func(k, n int) int{
		func(k, n int) int { return k }, func(k, n int) int { return n - 1 - k }, func(k, n int) int { return k ^ 1 }, func(k, n int) int { return (k + n/2) % n }, func(k, n int) int { return k / 2 },
	}
	lengths := []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600}
	r.Sub("long-conditions", len(kinds)*len(orders)*len(lengths), func(w *kit.W, i int) {
		kind, order, n := kinds[i%len(kinds)], orders[i/len(kinds)%len(orders)], lengths[i/len(kinds)/len(orders)]
		gen := of[kind]
		var vs []interface{}
		for k := 0; k < n; k++ {
			vs = append(vs, gen(order(k, n)))
		}
		fn := mk(kind, vs)
		w.States(n)
		w.Nontrivial()
		step := 1
		if n > 130 {
			step = 7
		}
		for k := -2; k < n+3; k += step {
			if k < 0 && (kind == "is" || kind == "uint64") {
				continue
			}
			var v interface{}
			if kind == "string" && k < 0 {
				v = ""
			} else if kind == "bool" {
				v = k%2 == 0
			} else {
				v = gen(k)
			}
			want := false
			for _, z := range vs {
				want = want || eq(kind, v, z)
			}
			w.Descf("condition %s with %d values (order %d) on %#v", kind, n, i/len(kinds)%len(orders), v)
			w.Eval()
			for _, t := range []p.AstType{typ22(v), p.AstType_Any, p.AstType_Nil} {
				if got := fn(p.AstSlice{{}, {ClassName: "x", Type: t, Value: v}}); got != want {
					w.Fail("%v on an entry tagged %v, want %v", got, t, want)
					return
				}
			}
			if o := (p.AstSlice{{Type: typ22(v), Value: v}, {ClassName: "x", Type: p.AstType_Any, Value: &n}}); fn(o) {
				w.Fail("holds below the newest entry")
				return
			}
		}
	})
	// texts of every length and their neighbours, numbers of every magnitude
	var sizes []int
	for n := 0; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)
	r.Sub("long-texts", len(sizes), func(w *kit.W, i int) {
		n := sizes[i]
		var sb strings.Builder
		for k := 0; k < n; k++ {
			sb.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789"[k*7%36])
		}
		t := sb.String()
		l := []string{t, t + "x", t + " ", " " + t, t + "\x00", "x" + t, strings.ToUpper(t), t + t, t + "é"}
		if n > 0 {
			l = append(l, t[:n-1], t[1:], t[:n-1]+"X", "X"+t[1:], t[:n/2]+"X"+t[n/2+1:], t[:n/2], t[:n-1]+"\xff")
		}
		for _, z := range l {
			fns := []p.MatchCaseIfFn{p.TopIsStr(z), p.TopIs(z), p.TopIsStr("", z, "q"), p.TopIs(int64(1), z)}
			for _, v := range l {
				for k, fn := range fns {
					w.Eval()
					if fn(p.AstSlice{{Type: p.AstType_String, Value: v}}) != (v == z || k == 2 && (v == "" || v == "q")) {
						w.Descf("condition %d with a text of %d bytes on one of %d bytes", k, len(z), len(v))
						w.Fail("wrong; %s and %s", clip26(z), clip26(v))
						return
					}
				}
			}
		}
		w.States(len(l))
		w.Nontrivial()
	})
	var mags []int64
	for k := uint(0); k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			mags = append(mags, int64(1)<<k+d, -(int64(1)<<k)+d, 0x1234567<<k%63|65+d)
		}
	}
	mags = append(mags, math.MaxInt64, math.MinInt64, math.MinInt64+1)
	r.Sub("magnitudes", len(mags), func(w *kit.W, i int) {
		z := mags[i]
		fi, fu, fr, ff := p.TopIsInt(7, z), p.TopIsUint(uint64(z)), p.TopIsRune(rune(z)), p.TopIsFloat(float64(z))
		gi, gu, gr, gf := p.TopIs(z), p.TopIs("x", uint64(z)), p.TopIs(rune(z)), p.TopIs(float64(z))
		one := func(typ p.AstType, v interface{}) p.AstSlice { return p.AstSlice{{}, {Type: typ, Value: v}} }
		for _, v := range mags {
			w.Eval()
			I, U, R, F := one(p.AstType_Int, v), one(p.AstType_Uint, uint64(v)), one(p.AstType_Rune, rune(v)), one(p.AstType_Float, float64(v))
			if fi(I) != (v == z || v == 7) || gi(I) != (v == z) || fu(U) != (v == z) || gu(U) != (v == z) || fr(R) != (rune(v) == rune(z)) || gr(R) != (rune(v) == rune(z)) || ff(F) != (float64(v) == float64(z)) || gf(F) != (float64(v) == float64(z)) {
				w.Descf("conditions of %d on %d", z, v)
				w.Fail("int %v %v, uint %v %v, rune %v %v, float %v %v", fi(I), gi(I), fu(U), gu(U), fr(R), gr(R), ff(F), gf(F))
				return
			}
			if gi(U) || gi(R) || gi(F) || gu(I) || gr(I) || gf(I) || fi(U) || fi(R) || fi(F) || fu(I) || fr(I) || ff(I) {
				w.Descf("conditions of %d on %d as another type", z, v)
				w.Fail("a value of another type is equal")
				return
			}
		}
		w.Nontrivial()
	})
	r.Sub("conditions", len(kinds), func(w *kit.W, i int) {
		kind := kinds[i]
		var lists [][]interface{}
		lists = append(lists, nil)
		for _, a := range refs[kind] {
			lists = append(lists, []interface{}{a})
			for _, b := range refs[kind] {
				lists = append(lists, []interface{}{a, b})
				if kind != "is" || r.Thorough {
					for _, c := range refs[kind] {
						lists = append(lists, []interface{}{a, b, c})
					}
				}
			}
		}
		for _, vs := range lists {
			given := append([]interface{}{}, vs...)
			fn := mk(kind, given)
			w.Desc(func() string { return fmt.Sprintf("condition %s %#v", kind, vs) })
			for turn := 0; turn < 2; turn++ {
				if fn(nil) || fn(p.AstSlice{}) {
					w.Fail("holds on an empty stack")
				}
				for _, v := range pool {
					want := false
					for _, z := range vs {
						want = want || eq(kind, v, z)
					}
					a := p.Ast{ClassName: "x", Type: typ22(v), Value: v}
					for _, t := range []p.AstType{p.AstType_Any, p.AstType_Nil} {
						if got := fn(p.AstSlice{{ClassName: "x", Type: t, Value: v}}); got != want {
							w.Fail("%v on %#v tagged %v, want %v", got, v, t, want)
							return
						}
					}
					for depth := 0; depth < 3; depth++ {
						l := make(p.AstSlice, 0, 4)
						for k := 0; k < depth; k++ {
							// older entries hold other values
							o := pool[(k*7+turn)%len(pool)]
							if len(vs) > 0 && k == depth-1 {
								o = vs[0]
							}
							l = append(l, p.Ast{Type: typ22(o), Value: o})
						}
						l = append(l, a)
						got := fn(l)
						w.Eval()
						w.States(1)
						if want {
							w.Nontrivial()
						}
						w.SeeStr(fmt.Sprint(kind, want, got))
						if got != want {
							w.Fail("%v on newest value %#v below which are %d entries, want %v", got, v, depth, want)
							return
						}
					}
				}
				if w.Failed() {
					return
				}
			}
		}
		if !p.TopIsAny(nil) || !p.TopIsAny(p.AstSlice{{}}) {
			w.Fail("TopIsAny does not hold")
		}
	})
}

// nested22 runs match steps inside other combinators.
func nested22(r *kit.Run) {
	tok := func(s string) p.ParserFn { return str.Seq(s) }
	texts := words(5, "a", "b", "c")
	// Entries: one per letter. A match step folds the newest up to n of them when the newest is b.
	fold := func(n int) p.ParserFn {
		return p.Match(n)(
			p.Case{If: p.TopIsStr("c"), Let: []p.TransformerFn{p.TransformError("c!")}},
			p.Case{If: p.TopIsStr("b"), Let: []p.TransformerFn{func(_ p.ParserContext, l p.AstSlice) (p.AstSlice, error) {
				var sb strings.Builder
				sb.WriteByte('(')
				for _, a := range l {
					sb.WriteString(a.Value.(string))
				}
				sb.WriteByte(')')
				return p.AstSlice{{ClassName: "fold", Type: p.AstType_String, Value: sb.String()}}, nil
			}}},
		)
	}
	refFold := func(l []string, n int) ([]string, bool, error) {
		if len(l) == 0 {
			return l, false, nil
		}
		switch l[len(l)-1] {
		case "c":
			return nil, false, errors.New("c!")
		case "b":
			at := len(l) - n
			if at < 0 {
				at = 0
			}
			return append(append([]string{}, l[:at]...), "("+strings.Join(l[at:], "")+")"), true, nil
		}
		return l, false, nil
	}
	any := func() p.ParserFn { return p.First(tok("a"), tok("b"), tok("c")) }
	shapes := []struct {
		name string
		fn   func(n int) p.ParserFn
		// ref returns the final list, end position, matched, error
		ref func(s string, n int) ([]string, int, bool, error)
	}{
		{"(x fold?)*", func(n int) p.ParserFn {
			return p.ZeroOrMoreTimes(p.FlatGroup(any(), p.First(fold(n), p.Zero(p.Ast{ClassName: "z", Type: p.AstType_String, Value: "-"}))))
		}, func(s string, n int) ([]string, int, bool, error) {
			l := []string{}
			for i := range s {
				l = append(l, s[i:i+1])
				m, ok, err := refFold(l, n)
				if err != nil {
					return nil, 0, false, err
				}
				if ok {
					l = m
				} else {
					l = append(l, "-")
				}
			}
			return l, len(s), true, nil
		}},
		{"(x fold)*", func(n int) p.ParserFn { return p.ZeroOrMoreTimes(p.FlatGroup(any(), fold(n))) }, func(s string, n int) ([]string, int, bool, error) {
			l := []string{}
			for i := range s {
				m, ok, err := refFold(append(append([]string{}, l...), s[i:i+1]), n)
				if err != nil {
					return nil, 0, false, err
				}
				if !ok {
					return l, i, true, nil
				}
				l = m
			}
			return l, len(s), true, nil
		}},
		{"x x fold end | x*", func(n int) p.ParserFn {
			return p.First(p.FlatGroup(any(), any(), fold(n), str.End()), p.ZeroOrMoreTimes(any()))
		}, func(s string, n int) ([]string, int, bool, error) {
			if len(s) >= 2 {
				m, ok, err := refFold([]string{s[:1], s[1:2]}, n)
				if err != nil {
					return nil, 0, false, err
				}
				if ok && len(s) == 2 {
					return m, 2, true, nil
				}
			}
			return strings.Split(s, "")[:len(s)], len(s), true, nil
		}},
	}
	for _, sh := range shapes {
		sh := sh
		r.Sub("nested "+sh.name, len(texts)*5, func(w *kit.W, i int) {
			s, n := texts[i/5], i%5
			w.Descf("%s with n=%d on %q", sh.name, n, s)
			l, pos, ok, werr := sh.ref(s, n)
			out, err := sh.fn(n)(*str.NewStringParserContext(s))
			w.Eval()
			w.States(1)
			w.Transitions(len(s))
			if werr != nil {
				if err == nil || out.MatchStatus != p.MatchStatus_Error {
					w.Fail("%v %v, want error %v", out.MatchStatus, err, werr)
				}
				return
			}
			var got []string
			for _, a := range out.AstStack {
				got = append(got, fmt.Sprint(a.Value))
			}
			if err != nil || ok != (out.MatchStatus == p.MatchStatus_Matched) || out.Position != pos || strings.Join(got, " ") != strings.Join(l, " ") {
				w.Fail("%v at %d %q (%v), want %q at %d", out.MatchStatus, out.Position, got, err, l, pos)
				return
			}
			w.SeeStr(strings.Join(got, " "))
			w.Nontrivial()
		})
	}
}
