package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/shellyln/takenoco/_examples/formula"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C31", Level: "exploration",
		Rule:   "every text over the grammar's symbols up to a length, every expression tree up to a number of operators with and without parentheses and blanks, and size sweeps, compared with a recursive-descent evaluator; a case is non-trivial when the text is an expression with an operator",
		Bounds: bounds31,
		Assumptions: []string{
			"a number may carry an adjacent sign and '_' between or after its digits, and has no leading zero",
			"blanks are HT LF VT FF CR SP NEL NBSP",
			"whether a minus directly before 9223372036854775808 is part of the number is not specified",
		},
		Run: run31,
	})
}

const bounds31 = "texts of up to 5 (thorough 6) of 11 symbols, 7 (8) of {1 - ( )}, 7 (8) of {2 + - *}, 7 (8) of {0 1 _ - + blank}; all trees of up to 2 (3) operators with up to two minus signs at each node, 3 operators with up to one, 4 (5) operators with up to two at one node, parenthesised where needed, everywhere or only here, in three blank styles, with operands up to the limits; every operator on all pairs of numbers of both signs around the powers of two and other limits; chains of up to 90 operators; nesting up to 1500; all single code points inserted at every place of an expression"

// expr31 is a node of an expression tree: a number, a negation or a binary operation.
type expr31 struct {
	op   byte // 'n' number, '~' negation, or + - * /
	num  int64
	a, b *expr31
}

// ref31 is the reference parser.
type ref31 struct {
	s      string
	i      int
	unsure bool // a minus before 2^63
}

const ws31 = "\t\n\v\f\r \u0085\u00a0"

func (p *ref31) ws() {
	for {
		r, n := rune28(p.s, p.i)
		if !in28(r, ws31) {
			return
		}
		p.i += n
	}
}

func (p *ref31) has(c byte) bool { return p.i < len(p.s) && p.s[p.i] == c }

// ops parses a left-associative chain of the operators in set.
func (p *ref31) ops(set string, next func() *expr31) *expr31 {
	a := next()
	for a != nil && p.i < len(p.s) && strings.IndexByte(set, p.s[p.i]) >= 0 {
		op := p.s[p.i]
		p.i++
		p.ws()
		b := next()
		if b == nil {
			return nil
		}
		a = &expr31{op: op, a: a, b: b}
	}
	return a
}

func (p *ref31) sum() *expr31     { return p.ops("+-", p.product) }
func (p *ref31) product() *expr31 { return p.ops("*/", p.unary) }

func (p *ref31) unary() *expr31 {
	switch {
	case p.has('-'):
		p.i++
		p.ws()
		a := p.unary()
		if a == nil {
			return nil
		}
		return &expr31{op: '~', a: a}
	case p.has('('):
		p.i++
		p.ws()
		a := p.sum()
		if a == nil || !p.has(')') {
			return nil
		}
		p.i++
		p.ws()
		return a
	}
	if p.has('+') {
		p.i++
	}
	from := p.i
	digit := func() bool { return p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' }
	if !digit() {
		return nil
	}
	zero := p.s[p.i] == '0'
	for p.i++; !zero && digit() || p.has('_'); {
		p.i++
	}
	z, _ := new(big.Int).SetString(strings.ReplaceAll(p.s[from:p.i], "_", ""), 10)
	if !z.IsInt64() {
		// -9223372036854775808 is a number only if the minus belongs to it
		if z.Sub(z, big.NewInt(1)).IsInt64() && from > 0 && strings.HasSuffix(strings.TrimRight(p.s[:from], ws31), "-") {
			p.unsure = true
		}
		return nil
	}
	p.ws()
	return &expr31{op: 'n', num: z.Int64()}
}

// parse31 returns the tree of a text, or nil.
func parse31(s string) (e *expr31, unsure bool) {
	p := &ref31{s: s}
	p.ws()
	e = p.sum()
	if p.i != len(s) {
		e = nil
	}
	return e, p.unsure
}

// eval31 evaluates a tree; ok is false on a division by zero.
func (e *expr31) eval31() (v int64, ok bool) {
	if e.op == 'n' {
		return e.num, true
	}
	a, ok := e.a.eval31()
	if !ok {
		return 0, false
	}
	if e.op == '~' {
		return -a, true
	}
	b, ok := e.b.eval31()
	if !ok {
		return 0, false
	}
	switch e.op {
	case '+':
		return a + b, true
	case '-':
		return a - b, true
	case '*':
		return a * b, true
	}
	if b == 0 {
		return 0, false
	}
	return a / b, true
}

func check31(w *kit.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("formula %q", clip26(s)) })
	e, unsure := parse31(s)
	if unsure {
		w.Skip()
		return
	}
	got, err := formula.Parse(s)
	w.Eval()
	if e == nil {
		if err == nil {
			w.Fail("accepted as %d", got)
		}
		w.SeeStr("rejected")
		return
	}
	want, ok := e.eval31()
	switch {
	case ok && err != nil:
		w.Fail("error %v, want %d", err, want)
	case ok && got != want:
		w.Fail("%d, want %d", got, want)
	case !ok && err == nil:
		w.Fail("%d, want an error: division by zero", got)
	}
	if e.op != 'n' {
		w.Nontrivial()
	}
	w.See(uint64(want))
}

// texts31 enumerates the texts both expression front ends are checked on.
func texts31(r *kit.Run, check func(w *kit.W, s string)) {
	k := 0
	if r.Thorough {
		k = 1
	}
	spaces := []*kit.Strings{
		kit.NewStrings(5+k, "0", "1", "7", "+", "-", "*", "/", "(", ")", " ", "a"),
		kit.NewStrings(7+k, "1", "-", "(", ")"),
		kit.NewStrings(7+k, "2", "+", "-", "*"),
		kit.NewStrings(6+k, "0", "1", "_", "-", "+", " "),
		kit.NewStrings(4+k, "3", "/", "-", "(", ")", "\t", "\n", "\u0085", "\u00a0", "\u2003", "."),
		kit.NewStrings(4+k, "9223372036854775807", "9223372036854775808", "18446744073709551616", "-", "+", "*", "/", "(", ")", "1"),
	}
	for n, sp := range spaces {
		sp := sp
		r.Sub(fmt.Sprintf("texts-%d", n), sp.Len(), func(w *kit.W, i int) { check(w, sp.At(i)) })
	}
	trees31(r, check)
	pairs31(r, check)
	// every code point in every place
	hosts := []string{"1+2", "(3)", "-4"}
	r.Sub("code-points", 0x110000, func(w *kit.W, i int) {
		if i >= 0xd800 && i <= 0xdfff || !r.Thorough && i > 0x3000 && i%32 != 1 {
			return
		}
		for _, h := range hosts {
			if i > 0x3000 && h != hosts[0] {
				continue
			}
			for k := 0; k <= len(h); k++ {
				if check(w, h[:k]+string(rune(i))+h[k:]); w.Failed() {
					return
				}
			}
		}
	})
	r.Sub("bytes", 256, func(w *kit.W, i int) {
		for k := 0; k <= 3; k++ {
			if check(w, "1+2"[:k]+string([]byte{byte(i)})+"1+2"[k:]); w.Failed() {
				return
			}
		}
	})
	chains := []int{1, 2, 3, 5, 8, 13, 21, 34, 55, 89}
	heads := []string{"1", "(2)", "-3", "- 4"}
	units := []string{"+1", "-1", "*3", "/2", " + 2 * 3", "-(2-1)", "*-2", "/ - 3 ", "-1*2/3", "+(4)", "--2"}
	r.Sub("chains", len(chains)*len(heads)*len(units), func(w *kit.W, i int) {
		n := chains[i%len(chains)]
		u := units[i/len(chains)%len(units)]
		if strings.Count(u, "1")+strings.Count(u, "2")+strings.Count(u, "3") > 1 {
			n = n/2 + 1
		}
		check(w, heads[i/len(chains)/len(units)]+strings.Repeat(u, n))
	})
	depths := []int{1, 2, 3, 7, 15, 16, 17, 31, 63, 64, 127, 255, 256, 500, 1023, 1024, 1025, 1500}
	opens := [][2]string{{"(", ")"}, {"( ", " ) "}, {"-", ""}, {"- ", ""}, {"-(", ")"}, {"(1+", ")"}, {"(", "*2)"}, {"(", ""}, {"", ")"}, {"(2*(", ")-1)"}, {" ", " "}, {"\t\n", "\u00a0"}}
	r.Sub("depths", len(depths)*len(opens), func(w *kit.W, i int) {
		n, o := depths[i%len(depths)], opens[i/len(depths)]
		if o[0] == "-" || o[0] == "- " {
			if n > 500 {
				n = n/10 + 1
			}
		} else if len(o[0]) > 2 && n > 600 {
			n = 600
		}
		check(w, strings.Repeat(o[0], n)+"5"+strings.Repeat(o[1], n))
	})
	r.Sub("digits", 1200*4, func(w *kit.W, i int) {
		n := i/4 + 1
		check(w, []string{strings.Repeat("1", n), "(-" + strings.Repeat("9", n) + ")", strings.Repeat("0", n), "3" + strings.Repeat("_", n) + "+1"}[i%4])
	})
	// numbers around every power of two and ten
	r.Sub("limits", 66*5*6, func(w *kit.W, i int) {
		z := new(big.Int).Lsh(big.NewInt(1), uint(i%66))
		z.Add(z, big.NewInt(int64(i/66%5-2)))
		if z.Sign() < 0 {
			return
		}
		s := z.String()
		check(w, []string{s, "-" + s, "0-" + s + "-1", s + "*2", s + "*" + s, "(0-" + s + ")/-1"}[i/66/5])
	})
}

// pairs31 applies every operator to pairs of numbers of every magnitude and sign.
func pairs31(r *kit.Run, check func(w *kit.W, s string)) {
	var nums []string
	add := func(v int64) {
		if v >= 0 {
			nums = append(nums, fmt.Sprint(v))
		} else if v > math.MinInt64 {
			nums = append(nums, fmt.Sprintf("(0-%d)", uint64(-v)))
		} else {
			nums = append(nums, "(0-9223372036854775807-1)")
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 5, 7, 9, 10, 13, 100, 255, 999, 65537, 1000000007, 3037000499, 3037000500, 6074001000, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 3} {
		add(v)
		add(-v)
	}
	for k := uint(2); k < 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			if !r.Thorough && k%3 != 1 && k != 32 && k < 62 && d != 0 {
				continue
			}
			add(int64(1)<<k + d)
			add(-(int64(1)<<k + d))
		}
	}
	n := len(nums)
	r.Sub("pairs", n*n, func(w *kit.W, i int) {
		for _, o := range []string{"+", "-", "*", "/"} {
			if check(w, nums[i%n]+o+nums[i/n]); w.Failed() {
				return
			}
		}
	})
}

// trees31 enumerates expression trees and their texts.
func trees31(r *kit.Run, check func(w *kit.W, s string)) {
	max := 4
	// shape i with n operators: the shapes of binary trees
	var shapes func(n int) []*expr31
	shapes = func(n int) (out []*expr31) {
		if n == 0 {
			return []*expr31{{op: 'n'}}
		}
		for l := 0; l < n; l++ {
			for _, a := range shapes(l) {
				for _, b := range shapes(n - 1 - l) {
					out = append(out, &expr31{op: '?', a: a, b: b})
				}
			}
		}
		return out
	}
	// each node of a tree carries up to two minus signs (up to two operators; three in the
	// thorough tier) or at most one (three operators), or at most one node of the whole tree
	// carries up to two (four and more operators)
	type job struct {
		sh    *expr31
		n     int
		signs int
		cases int
	}
	var jobs []job
	total := 0
	if r.Thorough {
		max = 5
	}
	for n := 0; n <= max; n++ {
		for _, sh := range shapes(n) {
			c := 1
			for k := 0; k < n; k++ {
				c *= 4 // operator
			}
			signs := 3
			if n == 3 && !r.Thorough {
				signs = 2
			}
			if n >= 4 {
				signs = 0
				c *= 4*n + 3
			} else {
				for k := 0; k < 2*n+1; k++ {
					c *= signs
				}
			}
			jobs = append(jobs, job{sh, n, signs, c})
			total += c
		}
	}
	nums := [][]int64{{7, 2, 3, 5, 11}, {1, 0, 4, 1, 0}, {9223372036854775807, 2, 9223372036854775807, 3, 1}}
	r.Sub("trees", total, func(w *kit.W, i int) {
		j := 0
		for i >= jobs[j].cases {
			i -= jobs[j].cases
			j++
		}
		for style := 0; style < 9; style++ {
			if jobs[j].n >= 3 && !r.Thorough && style != i%9 {
				continue
			}
			if jobs[j].n >= 4 && style%3 != i%3 {
				continue
			}
			code, leaf, node := i, 0, 0
			only := -1
			if jobs[j].signs == 0 {
				only = code % (4*jobs[j].n + 3)
				code /= 4*jobs[j].n + 3
			}
			vals := nums[style%3]
			blank := []string{"", " ", "\t\u00a0"}[(style+i)%3]
			var text func(e *expr31) (string, int) // text and binding strength
			text = func(e *expr31) (string, int) {
				neg := 0
				if only >= 0 {
					if node == only/2 {
						neg = only%2 + 1
					}
					node++
				} else {
					neg = code % jobs[j].signs
					code /= jobs[j].signs
				}
				var s string
				var bind int
				if e.op == 'n' {
					s, bind = fmt.Sprint(vals[leaf%len(vals)]), 4
					leaf++
				} else {
					op := "+-*/"[code&3]
					code >>= 2
					bind = 1
					if op == '*' || op == '/' {
						bind = 2
					}
					a, ba := text(e.a)
					b, bb := text(e.b)
					if ba < bind || style/3 == 1 {
						a = "(" + blank + a + ")"
					}
					if bb <= bind && bb < 3 || style/3 == 1 {
						b = "(" + b + blank + ")"
					}
					s = a + blank + string(op) + blank + b
				}
				if style/3 == 2 && (e.op != 'n' || neg > 0) {
					s, bind = "("+s+")", 4
				}
				for ; neg > 0; neg-- {
					if bind < 3 {
						s = "(" + s + ")"
					}
					s, bind = "-"+blank+s, 3
				}
				return s, bind
			}
			s, _ := text(jobs[j].sh)
			if check(w, blank+s+blank); w.Failed() {
				return
			}
		}
	})
}

func run31(r *kit.Run) { texts31(r, check31) }
