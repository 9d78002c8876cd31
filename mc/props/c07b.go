package props

import (
	"fmt"
	"reflect"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

// fam07 is a constructor that takes a list of the caller's.
type fam07 struct {
	name string
	pool int
	// mk makes one caller-owned list of pool elements; build makes a parser from a window
	// of it, sharing its storage; intact reports whether the list was changed.
	mk     func(idx []int) (build func(lo, hi int) p.ParserFn, intact func() string)
	inputs []p.ParserContext
}

func texts07(l ...string) (out []p.ParserContext) {
	for _, s := range l {
		out = append(out, *str.NewStringParserContext(s))
	}
	return
}

func same07(list, before interface{}) string {
	if reflect.DeepEqual(list, before) {
		return ""
	}
	return fmt.Sprintf("the caller's list became %v, was %v", list, before)
}

func families07() []fam07 {
	ranges := []p.RuneRange{{Start: 'a', End: 'c'}, {Start: 'b', End: 'd'}, {Start: 'd', End: 'd'}, {Start: 'a', End: 'f'}, {Start: 'f', End: 'h'}}
	strs := []string{"a", "ab", "b", "ba", "é"}
	single := texts07("", "a", "b", "c", "d", "e", "f", "g", "h", "i", "é")
	double := texts07("", "a", "b", "ab", "ba", "abc", "bab", "é", "éa", "c")
	var lists []p.ParserContext
	for _, l := range []objs{{}, {1}, {2}, {3}, {1, 2}, {2, 1}, {1, 1}, {1, 2, 3}, {3, 2, 1}} {
		lists = append(lists, *obj.NewObjectParserContext(l))
	}
	ranged := func(name string, f func(...p.RuneRange) p.ParserFn) fam07 {
		return fam07{name, len(ranges), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c []p.RuneRange
			for _, i := range idx {
				l = append(l, ranges[i])
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn { return f(l[lo:hi]...) }, func() string { return same07(l, c) }
		}, single}
	}
	stringed := func(name string, f func(...string) p.ParserFn) fam07 {
		return fam07{name, len(strs), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c []string
			for _, i := range idx {
				l = append(l, strs[i])
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn { return f(l[lo:hi]...) }, func() string { return same07(l, c) }
		}, double}
	}
	objected := func(name string, f func(...interface{}) p.ParserFn) fam07 {
		return fam07{name, 3, func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c []interface{}
			for _, i := range idx {
				l = append(l, i+1)
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn { return f(l[lo:hi]...) }, func() string { return same07(l, c) }
		}, lists}
	}
	// lists of functions cannot be compared, only called
	parsers := func() []p.ParserFn {
		return []p.ParserFn{str.Seq("a"), str.Seq("b"), p.Zero(z07("z")), p.FlatGroup(str.Seq("a"), str.Seq("b")), p.ZeroOrOnce(str.Any())}
	}
	kids := func(name string, f func(...p.ParserFn) p.ParserFn) fam07 {
		return fam07{name, 5, func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			ps := parsers()
			var l []p.ParserFn
			for _, i := range idx {
				l = append(l, ps[i])
			}
			c := append([]p.ParserFn{}, l...)
			return func(lo, hi int) p.ParserFn { return f(l[lo:hi]...) }, func() string {
				for i := range l {
					if reflect.ValueOf(l[i]).Pointer() != reflect.ValueOf(c[i]).Pointer() {
						return fmt.Sprintf("member %d of the caller's list was replaced", i)
					}
				}
				return ""
			}
		}, double}
	}
	trs := []p.TransformerFn{p.Erase, p.Push(z07("p")), p.Pop, p.Exchange, p.GroupingTransform}
	conds := []p.MatchCaseIfFn{p.TopIsStr("a"), p.TopIsStr("b", "é"), p.TopIsAny}
	out := []fam07{
		ranged("CharRange", str.CharRange), ranged("CharRangeN", str.CharRangeN), stringed("CharClass", str.CharClass), stringed("CharClassN", str.CharClassN),
		objected("ObjClass", obj.ObjClass), objected("ObjClassN", obj.ObjClassN), objected("obj.Seq", obj.Seq),
		kids("FlatGroup", p.FlatGroup), kids("Group", p.Group), kids("First", func(k ...p.ParserFn) p.ParserFn {
			return p.First(k...)
		}),
		kids("Once", p.Once), kids("ZeroOrOnce", p.ZeroOrOnce), kids("Repeat", func(k ...p.ParserFn) p.ParserFn { return p.Repeat(p.Times{Min: 1, Max: 2}, k...) }),
		kids("LookAhead", p.LookAhead), kids("LookAheadN", p.LookAheadN),
		kids("LookBehind", func(k ...p.ParserFn) p.ParserFn {
			return p.FlatGroup(str.Any(), p.First(p.FlatGroup(p.LookBehind(0, 1, k...), p.Zero(z07("yes"))), p.Zero(z07("no"))))
		}),
		{"Zero", 4, func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c p.AstSlice
			for _, i := range idx {
				l = append(l, entry14(i))
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn { return p.FlatGroup(p.ZeroOrOnce(str.Any()), p.Zero(l[lo:hi]...)) }, func() string {
				if !same14(l, c) {
					return "the caller's list became " + dump(l)
				}
				return ""
			}
		}, double},
		{"Trans", len(trs), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l []p.TransformerFn
			for _, i := range idx {
				l = append(l, trs[i])
			}
			return func(lo, hi int) p.ParserFn { return p.Trans(p.ZeroOrMoreTimes(str.Any()), l[lo:hi]...) }, func() string { return "" }
		}, double},
		{"Match cases", 6, func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l []p.Case
			for _, i := range idx {
				l = append(l, p.Case{If: conds[i%3], Let: [][]p.TransformerFn{{p.Push(z07(fmt.Sprint(i)))}, {p.Erase, p.Push(z07("r")), p.Push(z07(fmt.Sprint(i)))}}[i/3]})
			}
			return func(lo, hi int) p.ParserFn { return p.ZeroOrMoreTimes(str.Any(), p.Match(2)(l[lo:hi]...)) }, func() string { return "" }
		}, double},
		{"Match results", len(trs), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l []p.TransformerFn
			for _, i := range idx {
				l = append(l, trs[i])
			}
			return func(lo, hi int) p.ParserFn {
				return p.ZeroOrMoreTimes(str.Any(), p.Match(2)(p.Case{If: p.TopIsStr("a"), Let: l[lo:hi]}, p.Case{If: p.TopIsAny}))
			}, func() string { return "" }
		}, double},
		{"TopIsStr", len(strs), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c []string
			for _, i := range idx {
				l = append(l, strs[i])
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn {
				return p.ZeroOrMoreTimes(str.Any(), p.Match(1)(p.Case{If: p.TopIsStr(l[lo:hi]...), Let: []p.TransformerFn{p.Erase}}, p.Case{If: p.TopIsAny}))
			}, func() string { return same07(l, c) }
		}, double},
		{"TopIs", len(strs), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l, c []interface{}
			for _, i := range idx {
				l = append(l, strs[i])
			}
			c = append(c, l...)
			return func(lo, hi int) p.ParserFn {
				return p.ZeroOrMoreTimes(str.Any(), p.Match(1)(p.Case{If: p.TopIs(l[lo:hi]...), Let: []p.TransformerFn{p.Erase}}, p.Case{If: p.TopIsAny}))
			}, func() string { return same07(l, c) }
		}, double},
	}
	// numbers as reference values
	num := func(name string, cond func(lo, hi int, l []int) p.MatchCaseIfFn, val func(i int) p.Ast) fam07 {
		return fam07{name, 4, func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			return func(lo, hi int) p.ParserFn {
				return p.ZeroOrMoreTimes(p.First(p.FlatGroup(p.Trans(str.Seq("a"), p.Erase), p.Zero(val(0))), p.FlatGroup(p.Trans(str.Seq("b"), p.Erase), p.Zero(val(1))), p.FlatGroup(p.Trans(str.Seq("c"), p.Erase), p.Zero(val(2)))),
					p.Match(1)(p.Case{If: cond(lo, hi, idx), Let: []p.TransformerFn{p.Erase}}, p.Case{If: p.TopIsAny}))
			}, func() string { return "" }
		}, texts07("", "a", "b", "c", "abc", "cba", "aab")}
	}
	out = append(out, num("TopIsInt", func(lo, hi int, l []int) p.MatchCaseIfFn {
		var v []int64
		for _, i := range l {
			v = append(v, int64(i))
		}
		return p.TopIsInt(v[lo:hi]...)
	}, func(i int) p.Ast { return p.Ast{Type: p.AstType_Int, Value: int64(i)} }),
		num("TopIsRune", func(lo, hi int, l []int) p.MatchCaseIfFn {
			var v []rune
			for _, i := range l {
				v = append(v, rune(i))
			}
			return p.TopIsRune(v[lo:hi]...)
		}, func(i int) p.Ast { return p.Ast{Type: p.AstType_Rune, Value: rune(i)} }))
	// rewriting rules: lists of levels, and the rules of one level
	rules := []rule21{{pat: "a", rep: "b"}, {pat: "bb", rep: "b"}, {pat: "ab", rep: "b"}, {pat: "ba", rep: "a"}, {pat: "..", rep: "1"}}
	rewrite := func(name string, level func(l []p.ParserFn, pr []p.Precedence, lo, hi int) []p.Precedence) fam07 {
		return fam07{name, len(rules), func(idx []int) (func(lo, hi int) p.ParserFn, func() string) {
			var l []p.ParserFn
			var pr []p.Precedence
			for _, i := range idx {
				l = append(l, rules[i].build())
			}
			for i := range l {
				pr = append(pr, p.Precedence{Rules: l[i : i+1], Rtol: idx[i]%2 == 1})
			}
			n := len(pr)
			return func(lo, hi int) p.ParserFn {
					return p.Trans(p.ZeroOrMoreTimes(p.First(p.Trans(str.Seq("a"), p.ChangeClassName("a")), p.Trans(str.Seq("b"), p.ChangeClassName("b")))),
						p.ProductionRule(level(l, pr, lo, hi), p.FlatGroup(obj.Any(), obj.End())))
				}, func() string {
					for i := range pr {
						if len(pr) != n || pr[i].Rtol != (idx[i]%2 == 1) || len(pr[i].Rules) != 1 || cap(pr[i].Rules) != cap(l)-i {
							return "the caller's list of levels was changed"
						}
					}
					return ""
				}
		}, texts07("a", "b", "ab", "ba", "aab", "bba", "abab")}
	}
	return append(out,
		rewrite("ProductionRule levels", func(_ []p.ParserFn, pr []p.Precedence, lo, hi int) []p.Precedence { return pr[lo:hi] }),
		rewrite("ProductionRule rules", func(l []p.ParserFn, _ []p.Precedence, lo, hi int) []p.Precedence {
			return []p.Precedence{{Rules: l[lo:hi]}}
		}))
}

// arguments07 builds parsers from overlapping windows of one list of the caller's.
func arguments07(r *kit.Run) {
	fams := families07()
	type win struct{ lo, hi int }
	wins := []win{{0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {0, 3}}
	start := make([]int, len(fams)+1)
	for i, f := range fams {
		start[i+1] = start[i] + f.pool*f.pool*f.pool
	}
	r.Sub("shared-arguments", start[len(fams)], func(w *kit.W, i int) {
		q := 0
		for i >= start[q+1] {
			q++
		}
		f := fams[q]
		i -= start[q]
		idx := []int{i % f.pool, i / f.pool % f.pool, i / f.pool / f.pool}
		run := func(fn p.ParserFn) string {
			var sb strings.Builder
			for _, ctx := range f.inputs {
				ctx.AstStack = nil
				sb.WriteString(try(func() { sb.WriteString(showOut(fn(ctx))()) }))
				sb.WriteByte('\n')
				w.Eval()
			}
			return sb.String()
		}
		var a, b win
		w.Desc(func() string {
			return fmt.Sprintf("%s from members %d:%d and then %d:%d of the list %v", f.name, a.lo, a.hi, b.lo, b.hi, idx)
		})
		var want []string
		for _, x := range wins {
			fresh, _ := f.mk(idx)
			want = append(want, run(fresh(x.lo, x.hi)))
		}
		for x := range wins {
			for y := range wins {
				a, b = wins[x], wins[y]
				build, intact := f.mk(idx)
				fa := build(a.lo, a.hi)
				if m := intact(); m != "" {
					w.Fail("on construction: %s", m)
					return
				}
				ga := run(fa)
				fb := build(b.lo, b.hi)
				gb := run(fb)
				ga2 := run(fa)
				w.Transitions(3)
				switch {
				case intact() != "":
					w.Fail("%s", intact())
				case ga != want[x] || ga2 != want[x]:
					w.Fail("the first parser\n   got %s\n then %s\n want %s", ga, ga2, want[x])
				case gb != want[y]:
					w.Fail("the second parser\n   got %s\n want %s", gb, want[y])
				}
				if w.Failed() {
					return
				}
			}
		}
		w.States(len(wins))
		w.Nontrivial()
	})
}

// repeats07 uses one parser many times on one text before other ones.
func repeats07(r *kit.Run) {
	num := []string{"0x1F", "12", "1.5e3", "a", "transform", "transfers", "2020-02-29", "(a)", "((b))", ""}
	mks := []struct {
		name string
		mk   func() p.ParserFn
	}{
		{"literal", func() p.ParserFn { return str.Seq("transform") }},
		{"literal, any case", func() p.ParserFn { return str.SeqI("transform") }},
		{"set", func() p.ParserFn { return str.CharClass("transform", "a", "1") }},
		{"range", func() p.ParserFn { return str.CharRange(p.RuneRange{Start: 'a', End: 'z'}) }},
		{"choice", func() p.ParserFn {
			return p.First(str.Seq("a"), p.FlatGroup(str.Any(), str.Any(), str.Seq("a")), p.FlatGroup(str.Any(), str.Any()), str.Any())
		}},
		{"repetition", func() p.ParserFn { return p.ZeroOrMoreTimes(str.Any()) }},
		{"group", func() p.ParserFn { return p.Group(str.Any(), p.ZeroOrOnce(p.Group(str.Any()))) }},
		{"predicates", func() p.ParserFn {
			return p.ZeroOrMoreTimes(p.FlatGroup(p.LookAheadN(str.Seq("1")), str.Any(), p.First(p.LookBehind(1, 2, str.Seq("a")), p.Zero(z07("-")))))
		}},
		{"lazy recursion", func() p.ParserFn {
			var l p.ParserFn
			l = p.First(p.Group(str.Seq("("), p.Indirect(func() p.ParserFn { return l }), str.Seq(")")), str.CharRange(p.RuneRange{Start: 'a', End: 'z'}))
			return l
		}},
		{"match", func() p.ParserFn {
			return p.ZeroOrMoreTimes(str.Any(), p.Match(3)(p.Case{If: p.TopIsStr("a", "2"), Let: []p.TransformerFn{p.GroupingTransform}}, p.Case{If: p.TopIsAny}))
		}},
		{"rewriting", func() p.ParserFn {
			return p.Trans(p.ZeroOrMoreTimes(p.Trans(str.Any(), p.ChangeClassName("a"))), p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{rule21{pat: "..", rep: "1"}.build()}, Rtol: true}}, p.FlatGroup(obj.Any(), obj.End())))
		}},
		{"error", func() p.ParserFn { return p.FlatGroup(str.Any(), p.Error("e")) }},
		{"concatenation", func() p.ParserFn { return p.Trans(p.OneOrMoreTimes(str.Any()), str.Concat, str.Trim) }},
	}
	counts := []int{2, 9, 40, 130, 300, 1100}
	r.Sub("repeated-use", len(mks)*len(num), func(w *kit.W, i int) {
		m, a := mks[i/len(num)], num[i%len(num)]
		do := func(fn p.ParserFn, s string) string { return showOut(fn(vAll[1].Context(s, 0, 5)))() }
		var fresh []string
		for _, s := range num {
			fresh = append(fresh, do(m.mk(), s))
		}
		shared := m.mk()
		used := 0
		w.Desc(func() string { return fmt.Sprintf("%s after %d uses on %q", m.name, used, a) })
		for _, c := range counts {
			for ; used < c; used++ {
				if got := do(shared, a); got != fresh[i%len(num)] {
					w.Fail("got %s\n fresh %s", got, fresh[i%len(num)])
					return
				}
				w.Eval()
			}
			for k, s := range num {
				if got := do(shared, s); got != fresh[k] {
					w.Fail("then on %q: got %s\n fresh %s", s, got, fresh[k])
					return
				}
				w.Eval()
				w.Transitions(1)
			}
		}
		w.States(len(num))
		w.Nontrivial()
	})
}
