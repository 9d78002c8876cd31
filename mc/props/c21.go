package props

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
	obj "github.com/shellyln/takenoco/object"

	"verif/mc/kit"
)

// rule21 rewrites a pattern of token names into names; an empty tail of "$" anchors the end.
type rule21 struct {
	pat  string // letters; '.' any letter; '$' end of the list (last), '^' start of the list (first)
	rep  string // letters; "!" raises an error
	body p.ParserFn
}

func (r rule21) String() string { return r.pat + ">" + r.rep }

// tok21 is a token: its name is the class, its identity the position.
func tok21(name byte, id int) p.Ast {
	return p.Ast{ClassName: string([]byte{name}), Type: p.AstType_Int, Value: int64(id), OpCode: p.AstOpCodeType(id), SourcePosition: p.SourcePosition{Position: id, Length: 1}}
}

func (r rule21) build() p.ParserFn {
	var kids []p.ParserFn
	for i := 0; i < len(r.pat); i++ {
		c := r.pat[i]
		switch c {
		case '$':
			kids = append(kids, obj.End())
		case '^':
			kids = append(kids, p.Start())
		case '.':
			kids = append(kids, obj.Any())
		default:
			kids = append(kids, obj.ObjClassFn(func(x interface{}) bool { return x.(p.Ast).ClassName == string([]byte{c}) }))
		}
	}
	return p.Trans(p.FlatGroup(kids...), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
		if r.rep == "!" {
			return nil, errors.New("rule " + r.String())
		}
		var out p.AstSlice
		for i := 0; i < len(r.rep); i++ {
			if r.rep[i] == '1' { // a token that was matched, taken over
				out = append(out, a[0].Value.(p.Ast))
				continue
			}
			out = append(out, tok21(r.rep[i], 1000))
		}
		return out, nil
	})
}

// apply is the reference: it returns whether the rule matches at i and how many tokens.
func (r rule21) apply(l []p.Ast, i int) (bool, int) {
	n := 0
	for k := 0; k < len(r.pat); k++ {
		switch c := r.pat[k]; c {
		case '$':
			if i+n != len(l) {
				return false, 0
			}
		case '^':
			if i+n != 0 {
				return false, 0
			}
		default:
			if i+n >= len(l) || c != '.' && l[i+n].ClassName != string([]byte{c}) {
				return false, 0
			}
			n++
		}
	}
	return true, n
}

type level21 struct {
	rules []rule21
	rtol  bool
}

func show21(ls []level21) string {
	var s []string
	for _, l := range ls {
		d := "L"
		if l.rtol {
			d = "R"
		}
		s = append(s, fmt.Sprint(d, l.rules))
	}
	return strings.Join(s, " ")
}

type result21 struct {
	list  []p.Ast
	err   string // rule error, "-" for none applicable
	skip  bool
	steps int
	trail []string
}

func names21(l []p.Ast) string {
	var sb strings.Builder
	for _, a := range l {
		sb.WriteString(a.ClassName)
	}
	return sb.String()
}

// rewrite21 is the reference rewriting machine.
func rewrite21(ls []level21, accept func([]p.Ast) bool, l []p.Ast) (res result21) {
	seen := map[string]bool{}
	for {
		key := names21(l)
		if seen[key] || len(l) > 40 {
			res.skip = true // it never ends
			return
		}
		seen[key] = true
		hit := false
	levels:
		for _, lv := range ls {
			for i := 0; i <= len(l); i++ {
				at := i
				if lv.rtol {
					at = len(l) - i
				}
				for _, r := range lv.rules {
					res.steps++
					ok, n := r.apply(l, at)
					if !ok {
						continue
					}
					if r.rep == "!" {
						res.err = "rule " + r.String()
						return
					}
					next := append([]p.Ast{}, l[:at]...)
					for k := 0; k < len(r.rep); k++ {
						if r.rep[k] == '1' {
							next = append(next, l[at])
						} else {
							next = append(next, tok21(r.rep[k], 1000))
						}
					}
					next = append(next, l[at+n:]...)
					l = next
					hit = true
					break levels
				}
			}
		}
		if accept(l) {
			res.list = l
			return
		}
		if !hit {
			res.err = "-"
			return
		}
	}
}

type accept21 struct {
	name string
	fn   func() p.ParserFn
	ref  func(l []p.Ast) bool
}

func accepts21() []accept21 {
	cls := func(c string) p.ParserFn {
		return obj.ObjClassFn(func(x interface{}) bool { return x.(p.Ast).ClassName == c })
	}
	return []accept21{
		{"one", func() p.ParserFn { return p.FlatGroup(p.Start(), obj.Any(), obj.End()) }, func(l []p.Ast) bool { return len(l) == 1 }},
		{"a", func() p.ParserFn { return p.FlatGroup(cls("a"), obj.End()) }, func(l []p.Ast) bool { return len(l) == 1 && l[0].ClassName == "a" }},
		{"b*", func() p.ParserFn { return p.FlatGroup(p.ZeroOrMoreTimes(cls("b")), obj.End()) }, func(l []p.Ast) bool { return strings.Trim(names21(l), "b") == "" }},
		{"a.*", func() p.ParserFn { return cls("a") }, func(l []p.Ast) bool { return len(l) > 0 && l[0].ClassName == "a" }},
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C21", Level: "model_checking",
		Bounds: "rewriting systems over {a,b}: all ordered pairs of 48 rules (patterns of 0..3 tokens, any, start and end anchors; replacements of 0..2 tokens, matched tokens taken over, errors) as one level or two, all lists of up to 4 tokens (thorough: all six level/direction layouts, lists up to 6); all triples of 11 (17) rules over three levels in all 8 direction combinations, 4 acceptance patterns; 1..40 (130) levels or rules that are empty or never apply around one of 7 rules; systems stopped after every number of steps up to 24 (64) by erasing, replacing or adding one entry at a time, or counting in the opcode or the position of one, in both directions; operator tables of 3 levels in all 8 associativities with prefix operators on all operator strings up to 4 (6) operators and all token strings up to 6 (8); chains of up to 160 operators, and single ones of up to 1300 (3000) operators; folds of 1001 and 2050 tokens",
		Assumptions: []string{
			"systems that rewrite forever are skipped (detected on the model)",
			"a rule is tried once before the list is first checked for acceptance (as implemented)",
			"the location of tokens made by a rule is up to the rule",
		},
		Run: run21,
	})
}

func check21(w *kit.W, ls []level21, acc accept21, fn p.TransformerFn, in []p.Ast) {
	w.Desc(func() string { return fmt.Sprintf("%s until %s on %s", show21(ls), acc.name, names21(in)) })
	want := rewrite21(ls, acc.ref, in)
	w.States(1)
	w.Transitions(want.steps)
	if want.skip {
		w.Skip()
		return
	}
	given := append(make(p.AstSlice, 0, len(in)+3), in...)
	out, err := fn(p.ParserContext{Tag: 7}, given)
	w.Eval()
	for i := range in {
		if !same14(given[i:i+1], in[i:i+1]) {
			w.Fail("entry %d of the given list was modified: %s", i, dump(given))
			return
		}
	}
	switch {
	case want.err == "-":
		if err == nil {
			w.Fail("no error, result %s", names21(out))
		}
		w.SeeStr("stuck")
	case want.err != "":
		if err == nil || err.Error() != want.err {
			w.Fail("error %v, want %s (result %s)", err, want.err, names21(out))
		}
		w.SeeStr("error")
	default:
		if err != nil {
			w.Fail("error %v, want %s", err, names21(want.list))
			return
		}
		if !same14(out, want.list) {
			w.Fail("result %s %s\n   want %s %s", names21(out), dump(out), names21(want.list), dump(want.list))
		}
		w.SeeStr(names21(out))
		w.Nontrivial()
	}
}

func run21(r *kit.Run) {
	var rules []rule21
	reps := []string{"", "a", "b", "ab", "ba", "aa"}
	for _, pat := range []string{"a", "b", "aa", "ab", "ba", "bb"} {
		for _, rep := range reps {
			if rep != pat {
				rules = append(rules, rule21{pat: pat, rep: rep})
			}
		}
	}
	rules = append(rules, rule21{pat: "a", rep: "!"}, rule21{pat: "bb", rep: "!"}, rule21{pat: "..", rep: "1"}, rule21{pat: ".b", rep: "1"}, rule21{pat: "a.", rep: "b"}, rule21{pat: "$", rep: "a"}, rule21{pat: "", rep: "b"}, rule21{pat: "b$", rep: "a"}, rule21{pat: "^a", rep: "b"}, rule21{pat: "a$", rep: ""}, rule21{pat: "^b", rep: ""}, rule21{pat: "aba", rep: "b"}, rule21{pat: "^$", rep: "b"}, rule21{pat: "^", rep: "a"}, rule21{pat: "^..$", rep: "1"}, rule21{pat: "abb", rep: "1a"}, rule21{pat: "$", rep: "!"})
	size, slots := 4, 2
	if r.Thorough {
		size, slots = 6, 6
	}
	toLists := func(ss []string) (out [][]p.Ast) {
		for _, s := range ss {
			var l []p.Ast
			for i := range s {
				l = append(l, tok21(s[i], i+1))
			}
			out = append(out, l)
		}
		return
	}
	lists := toLists(words(size, "a", "b"))
	accs := accepts21()
	build := func(ls []level21, acc accept21) p.TransformerFn {
		var pr []p.Precedence
		for _, l := range ls {
			var q p.Precedence
			q.Rtol = l.rtol
			for _, x := range l.rules {
				q.Rules = append(q.Rules, x.build())
			}
			pr = append(pr, q)
		}
		return p.ProductionRule(pr, acc.fn())
	}
	eachOf := func(w *kit.W, lists [][]p.Ast, ls []level21, acc accept21) {
		fn := build(ls, acc)
		for _, l := range lists {
			if check21(w, ls, acc, fn, l); w.Failed() {
				return
			}
		}
	}
	each := func(w *kit.W, ls []level21, acc accept21) { eachOf(w, lists, ls, acc) }
	n := len(rules)
	r.Sub("no-rules", 8, func(w *kit.W, i int) {
		ls := []level21{}
		if i >= 4 {
			ls = []level21{{}, {rtol: true}}
		}
		each(w, ls, accs[i%4])
	})
	r.Sub("pairs", n*n*slots, func(w *kit.W, i int) {
		a, b := rules[i%n], rules[i/n%n]
		var ls []level21
		k := i / n / n
		if slots == 2 { // quick: one of the two one-level systems, one of the four two-level ones
			k = k*(2+(i+i/n)%4) + (1-k)*((i+i/n)%2)
		}
		switch k {
		case 0, 1:
			ls = []level21{{[]rule21{a, b}, k == 1}}
		default:
			ls = []level21{{[]rule21{a}, k&1 == 1}, {[]rule21{b}, k&2 == 2}}
		}
		each(w, ls, accs[(i/n+i)%len(accs)])
	})
	few := []rule21{{pat: "a", rep: "b"}, {pat: "b", rep: "a"}, {pat: "aa", rep: "a"}, {pat: "bb", rep: "a"}, {pat: "ab", rep: "b"}, {pat: "ba", rep: "b"}, {pat: "ab", rep: "ba"}, {pat: "ba", rep: "ab"}, {pat: "aa", rep: "bb"}, {pat: "a", rep: "!"}, {pat: "bb", rep: ""}, {pat: "..", rep: "1"}, {pat: "b$", rep: "a"}, {pat: "^a", rep: "b"}, {pat: "a", rep: ""}, {pat: "aab", rep: "1"}, {pat: "bab", rep: "!"}}
	m := len(few)
	if !r.Thorough {
		m = 11
	}
	r.Sub("triples", m*m*m*8, func(w *kit.W, i int) {
		ls := []level21{{[]rule21{few[i%m]}, i/m/m/m&1 == 1}, {[]rule21{few[i/m%m]}, i/m/m/m&2 == 2}, {[]rule21{few[i/m/m%m]}, i/m/m/m&4 == 4}}
		if i%3 == 0 { // an empty level in between must not matter
			ls = []level21{ls[0], {}, ls[1], ls[2]}
		}
		each(w, ls, accs[(i/m+i)%len(accs)])
	})
	// many levels, most of them empty or never applicable, and long levels
	one := []rule21{{pat: "a", rep: "b"}, {pat: "aa", rep: "b"}, {pat: "ab", rep: "b"}, {pat: "bb", rep: "1"}, {pat: "$", rep: "!"}, {pat: "^a", rep: ""}, {pat: "b", rep: "!"}}
	never := []rule21{{pat: "c", rep: "!"}, {pat: "^a.c", rep: "a"}, {pat: "ccc$", rep: "b"}}
	most := 40
	if r.Thorough {
		most = 130
	}
	r.Sub("many-levels", most*len(one)*4, func(w *kit.W, i int) {
		count, x := i/4/len(one), one[i/4%len(one)]
		var ls []level21
		for k := 0; k < count; k++ {
			l := level21{rtol: (k+i)%2 == 1}
			for j := 0; j < (k+i/4)%4; j++ {
				l.rules = append(l.rules, never[(j+k)%len(never)])
			}
			ls = append(ls, l)
		}
		switch i % 4 {
		case 0: // the last level decides
			ls = append(ls, level21{rules: []rule21{x}, rtol: count%2 == 1})
		case 1: // the last but one does, before another that would
			ls = append(ls, level21{rules: []rule21{x}, rtol: count%2 == 1}, level21{rules: []rule21{{pat: "b", rep: ""}}})
		case 2: // the last rule of a long level
			var rs []rule21
			for k := 0; k < count; k++ {
				rs = append(rs, never[k%len(never)])
			}
			ls = []level21{{}, {rules: append(rs, x), rtol: count%2 == 1}, {rules: []rule21{{pat: "b", rep: ""}}}}
		case 3: // followed by levels that never apply
			ls = append([]level21{{rules: []rule21{x}, rtol: count%2 == 1}}, ls...)
		}
		for k := range accs {
			eachOf(w, lists[:31], ls, accs[k]) // up to 4 symbols
			if w.Failed() {
				return
			}
		}
	})
	// Rules that look at up to eight tokens, made applicable by a rewrite at either end or between.
	longest := 6
	if r.Thorough {
		longest = 8
	}
	r.Sub("wide-rules", (longest-2)*12, func(w *kit.W, i int) {
		n, k := i/12+3, i%12
		dots := strings.Repeat(".", n-2)
		wide := rule21{pat: "a" + dots + "b", rep: "d"}
		small := rule21{pat: "c", rep: "b"}
		if k%2 == 1 {
			wide, small = rule21{pat: "b" + dots + "a", rep: "1"}, rule21{pat: "c", rep: "b"}
		}
		var ls []level21
		switch k / 2 {
		case 0, 1:
			ls = []level21{{[]rule21{wide, small}, k/2 == 1}}
		case 2, 3:
			ls = []level21{{[]rule21{small, wide}, k/2 == 3}}
		case 4:
			ls = []level21{{[]rule21{wide}, false}, {[]rule21{small}, false}}
		case 5:
			ls = []level21{{[]rule21{wide}, true}, {[]rule21{small}, true}}
		}
		for j := range accs {
			if eachOf(w, toLists(words(n+1, "a", "c")), ls, accs[j]); w.Failed() {
				return
			}
		}
	})
	until21(r)
	operators21(r)
}

// until21 stops systems after every number of steps: one step erases, adds or replaces one
// entry, and the acceptance pattern holds after k of them.
func until21(r *kit.Run) {
	cls := func(c string) p.ParserFn {
		return obj.ObjClassFn(func(x interface{}) bool { return x.(p.Ast).ClassName == c })
	}
	to := func(x p.ParserFn, out ...p.Ast) p.ParserFn {
		return p.Trans(x, func(p.ParserContext, p.AstSlice) (p.AstSlice, error) { return append(p.AstSlice{}, out...), nil })
	}
	exact := func(k int, c string) p.ParserFn { return p.Repeat(p.Times{Min: k, Max: k}, cls(c)) }
	most := 24
	if r.Thorough {
		most = 64
	}
	sizes := [][2]int{}
	for n := 1; n <= most; n++ {
		for k := 0; k < n; k++ {
			sizes = append(sizes, [2]int{n, k})
		}
	}
	for _, n := range []int{65, 129, 200, 257} {
		for _, k := range []int{0, 1, 2, 63, 64, n / 2, n - 2, n - 1} {
			sizes = append(sizes, [2]int{n, k})
		}
	}
	r.Sub("until", len(sizes)*2*5, func(w *kit.W, i int) {
		rtol, mode := i%2 == 1, i/2%5
		n, k := sizes[i/10][0], sizes[i/10][1]
		var l p.AstSlice
		for j := 0; j < n; j++ {
			l = append(l, p.Ast{ClassName: "a", Type: p.AstType_Int, Value: int64(j)})
		}
		var rule, acc p.ParserFn
		var want []string
		name := func(j int) string { return fmt.Sprint("a", j) }
		switch mode {
		case 0: // erase one by one until k are left
			rule, acc = to(cls("a")), p.FlatGroup(p.Start(), exact(k, "a"), obj.End())
			for j := 0; j < k; j++ {
				if rtol {
					want = append(want, name(j))
				} else {
					want = append(want, name(j+n-k))
				}
			}
		case 1: // replace one by one until k are left
			rule = to(cls("a"), p.Ast{ClassName: "b", Value: int64(-1)})
			for j := 0; j < n; j++ {
				if rtol == (j < k) {
					want = append(want, name(j))
				} else {
					want = append(want, "b-1")
				}
			}
			if rtol {
				acc = p.FlatGroup(exact(k, "a"), exact(n-k, "b"), obj.End())
			} else {
				acc = p.FlatGroup(exact(n-k, "b"), exact(k, "a"), obj.End())
				want = nil
				for j := 0; j < n; j++ {
					if j < n-k {
						want = append(want, "b-1")
					} else {
						want = append(want, name(j))
					}
				}
			}
		case 2: // add one by one to k+1 until there are n+1
			l = l[:k+1]
			rule = p.FlatGroup(p.Start(), p.Zero(p.Ast{ClassName: "b", Value: int64(-1)}))
			acc = p.FlatGroup(p.Repeat(p.Times{Min: n + 1, Max: n + 1}, obj.Any()), obj.End())
			for j := 0; j < n-k; j++ {
				want = append(want, "b-1")
			}
			for j := 0; j <= k; j++ {
				want = append(want, name(j))
			}
		case 3, 4: // count in the opcode or the position of one entry, until it is k+1
			l = l[:1+(n-1)%7]
			count := func(a p.Ast) int {
				if mode == 3 {
					return int(a.OpCode)
				}
				return a.Position
			}
			rule = p.Trans(cls("a"), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				x := a[len(a)-1].Value.(p.Ast)
				if mode == 3 {
					x.OpCode++
				} else {
					x.Position++
				}
				return p.AstSlice{x}, nil
			})
			done := obj.ObjClassFn(func(x interface{}) bool { return count(x.(p.Ast)) == k+1 })
			acc = p.FlatGroup(p.ZeroOrMoreTimes(obj.ObjClassFn(func(x interface{}) bool { return count(x.(p.Ast)) != k+1 })), done, p.ZeroOrMoreTimes(obj.Any()), obj.End())
			for j := range l {
				at := 0
				if j == 0 && !rtol || j == len(l)-1 && rtol {
					at = k + 1
				}
				want = append(want, fmt.Sprint(name(j), "/", at))
			}
		}
		w.Descf("mode %d, right to left %v, from %d to %d", mode, rtol, n, k)
		out, err := p.ProductionRule([]p.Precedence{{}, {Rules: []p.ParserFn{cls("c"), rule}, Rtol: rtol}, {Rules: []p.ParserFn{to(cls("a"))}}}, acc)(p.ParserContext{}, l)
		w.Eval()
		w.States(1)
		w.Transitions(n - k)
		w.Nontrivial()
		var got []string
		for _, a := range out {
			switch mode {
			case 3:
				got = append(got, fmt.Sprint(a.ClassName, a.Value, "/", int(a.OpCode)))
			case 4:
				got = append(got, fmt.Sprint(a.ClassName, a.Value, "/", a.Position))
			default:
				got = append(got, fmt.Sprint(a.ClassName, a.Value))
			}
		}
		if err != nil || strings.Join(got, " ") != strings.Join(want, " ") {
			w.Fail("%v %s, want %s", err, clip26(fmt.Sprint(got)), clip26(fmt.Sprint(want)))
		}
	})
}

// operators21 compares operator tables with precedence climbing.
func operators21(r *kit.Run) {
	levelOf := map[byte]int{'^': 0, '*': 1, '/': 1, '+': 2, '-': 2}
	val := func(a interface{}) p.Ast { return a.(p.Ast) }
	isV := func() p.ParserFn { return obj.ObjClassFn(func(c interface{}) bool { return val(c).ClassName == "v" }) }
	isOp := func(o byte) p.ParserFn {
		return obj.ObjClassFn(func(c interface{}) bool { return val(c).ClassName == string([]byte{o}) })
	}
	mk := func(mask int) p.TransformerFn {
		bin := func(o byte) p.ParserFn {
			return p.Trans(p.FlatGroup(isV(), isOp(o), isV()), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
				return p.AstSlice{{ClassName: "v", Type: p.AstType_String, Value: "(" + val(a[0].Value).Value.(string) + string([]byte{o}) + val(a[2].Value).Value.(string) + ")"}}, nil
			})
		}
		neg := p.Trans(p.FlatGroup(isOp('!'), isV()), func(_ p.ParserContext, a p.AstSlice) (p.AstSlice, error) {
			return p.AstSlice{{ClassName: "v", Type: p.AstType_String, Value: "(!" + val(a[1].Value).Value.(string) + ")"}}, nil
		})
		return p.ProductionRule([]p.Precedence{
			{Rules: []p.ParserFn{neg}, Rtol: true},
			{Rules: []p.ParserFn{bin('^')}, Rtol: mask&1 != 0},
			{Rules: []p.ParserFn{bin('*'), bin('/')}, Rtol: mask&2 != 0},
			{Rules: []p.ParserFn{bin('+'), bin('-')}, Rtol: mask&4 != 0},
		}, p.FlatGroup(p.Start(), isV(), obj.End()))
	}
	// reference: precedence climbing
	parse := func(toks string, mask int) (string, bool) {
		pos := 0
		var prim func() (string, bool)
		prim = func() (string, bool) {
			if pos >= len(toks) {
				return "", false
			}
			c := toks[pos]
			pos++
			if c == '!' {
				s, ok := prim()
				return "(!" + s + ")", ok
			}
			return string([]byte{c}), c >= 'a' && c <= 'z'
		}
		var expr func(max int) (string, bool)
		expr = func(max int) (string, bool) {
			l, ok := prim()
			if !ok {
				return "", false
			}
			for pos < len(toks) {
				o := toks[pos]
				lv, isop := levelOf[o]
				if !isop {
					return "", false
				}
				if lv > max {
					break
				}
				pos++
				next := lv - 1
				if mask&(1<<lv) != 0 {
					next = lv
				}
				rr, ok := expr(next)
				if !ok {
					return "", false
				}
				l = "(" + l + string([]byte{o}) + rr + ")"
			}
			return l, true
		}
		s, ok := expr(2)
		return s, ok && pos == len(toks)
	}
	check := func(w *kit.W, fn p.TransformerFn, toks string, mask int) {
		w.Desc(func() string { return fmt.Sprintf("operators %q, right-to-left levels %03b", toks, mask) })
		var l p.AstSlice
		for i := 0; i < len(toks); i++ {
			c := toks[i]
			if c >= 'a' && c <= 'z' {
				l = append(l, p.Ast{ClassName: "v", Type: p.AstType_String, Value: string([]byte{c})})
			} else {
				l = append(l, p.Ast{ClassName: string([]byte{c}), Type: p.AstType_String, Value: string([]byte{c})})
			}
		}
		before := dump(l)
		want, ok := parse(toks, mask)
		out, err := fn(p.ParserContext{}, l)
		w.Eval()
		w.States(1)
		if dump(l) != before {
			w.Fail("the given list was modified: %s", dump(l))
			return
		}
		if !ok {
			if err == nil {
				w.Fail("accepted as %s", dump(out))
			}
			return
		}
		w.Nontrivial()
		if err != nil || len(out) != 1 || out[0].Value != want {
			w.Fail("%v %s, want %s", err, dump(out), want)
		}
	}
	n, step := 4, 16
	if r.Thorough {
		n, step = 6, 4
	}
	ops := kit.NewStrings(n, "^", "*", "/", "+", "-")
	r.Sub("operators", ops.Len()*8, func(w *kit.W, i int) {
		mask := i % 8
		fn := mk(mask)
		o := ops.At(i / 8)
		for pre := 0; pre < 4; pre++ {
			var sb strings.Builder
			for k := 0; k <= len(o); k++ {
				// prefix operators here and there
				switch {
				case pre == 1 && k == 0, pre == 2 && k == len(o):
					sb.WriteString("!")
				case pre == 3:
					sb.WriteString([]string{"!!", "", "!"}[k%3])
				}
				sb.WriteByte("abcdefgh"[k])
				if k < len(o) {
					sb.WriteByte(o[k])
				}
			}
			if check(w, fn, sb.String(), mask); w.Failed() {
				return
			}
		}
	})
	// any token string, well-formed or not
	any := kit.NewStrings(n+2, "a", "!", "^", "*", "+")
	r.Sub("malformed", any.Len(), func(w *kit.W, i int) { check(w, mk(i%8), any.At(i), i%8) })
	// many rewrites in one run
	longest := 1300
	if r.Thorough {
		longest = 3000
	}
	r.Sub("long-rewrites", 12, func(w *kit.W, i int) {
		n, mask := []int{600, longest}[i%2], []int{0, 7}[i/2%2]
		var sb strings.Builder
		for k := 0; k < n; k++ {
			sb.WriteByte("abcdefgh"[k%8])
			sb.WriteString([]string{"+", "^", "*"}[i/4])
		}
		check(w, mk(mask), sb.String()+"z", mask)
		w.Desc(func() string { return fmt.Sprintf("chain of %d operators, right-to-left levels %03b", n, mask) })
	})
	r.Sub("long-folds", 8, func(w *kit.W, i int) {
		n, rtol, rep := []int{1001, 2050}[i%2], i/2%2 == 1, []string{"1", ""}[i/4]
		w.Descf("folding %d tokens, right to left %v, to %q", n, rtol, rep)
		if rep == "" {
			n -= n % 2
		}
		var l p.AstSlice
		for k := 0; k < n; k++ {
			l = append(l, tok21('a', k+1))
		}
		want := l[:0:0]
		switch {
		case rep == "1":
			want = p.AstSlice{l[0]}
		}
		acc := p.FlatGroup(p.ZeroOrOnce(obj.Any()), obj.End())
		out, err := p.ProductionRule([]p.Precedence{{Rules: []p.ParserFn{rule21{pat: "..", rep: rep}.build()}, Rtol: rtol}}, acc)(p.ParserContext{}, l)
		w.Eval()
		w.States(n)
		w.Nontrivial()
		if err != nil || !same14(out, want) {
			w.Fail("%d tokens left, %v", len(out), err)
		}
	})
	r.Sub("long-chains", 160/step*8, func(w *kit.W, i int) {
		n, mask := i/8*step+1, i%8
		for _, pat := range []string{"+", "-+", "*", "^", "+*", "^+*-", "*^/"} {
			var sb strings.Builder
			for k := 0; k < n; k++ {
				sb.WriteByte("abcdefgh"[k%8])
				sb.WriteByte(pat[k%len(pat)])
			}
			if check(w, mk(mask), sb.String()+"z", mask); w.Failed() {
				return
			}
		}
	})
}
