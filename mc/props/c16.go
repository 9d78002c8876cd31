package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	p "github.com/shellyln/takenoco/base"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C16", Level: "exploration",
		Rule:        "one case per block of texts; non-trivial when some text converts and another is an error",
		Bounds:      "integers: every text of up to 5 (thorough 6) units over signs, digits, letters, separators, blanks and other characters in radices 2, 3, 8, 10, 16, 36; in every radix 2..36 the texts of +-2^k-2..+2 for k up to 70, with signs, zeros and both letter cases; up to 2048 leading zeros; 10 number texts with every byte and 8 other characters inserted at every place; floats: every text of up to 7 (9) symbols over {0,1,9,.,e,+,-}, boundary and half-way values of up to 800 digits; the text split over 1..3 entries; characters: every code point",
		Assumptions: []string{"radix 0, hexadecimal floats, float texts with separators, infinities and NaN texts are unspecified and skipped"},
		Run:         run16,
	})
}

// refInt is the reference for integers: sign? digits, in a radix; nil: malformed.
func refInt(s string, radix int, unsigned bool) *big.Int {
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-' && !unsigned) {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return nil
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := -1
		switch c := s[i]; {
		case '0' <= c && c <= '9':
			d = int(c - '0')
		case 'a' <= c && c <= 'z':
			d = int(c-'a') + 10
		case 'A' <= c && c <= 'Z':
			d = int(c-'A') + 10
		}
		if d < 0 || d >= radix {
			return nil
		}
		v.Mul(v, big.NewInt(int64(radix)))
		v.Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// refFloat is the reference for decimal floats: ok is false when malformed.
func refFloat(s string) (v float64, ok, over bool) {
	i := 0
	neg := false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	mant := new(big.Int)
	digits, scale := 0, 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		mant.Add(mant.Mul(mant, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
		digits++
		i++
	}
	if i < len(s) && s[i] == '.' {
		i++
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			mant.Add(mant.Mul(mant, big.NewInt(10)), big.NewInt(int64(s[i]-'0')))
			digits++
			scale--
			i++
		}
	}
	if digits == 0 {
		return 0, false, false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		eneg := false
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			eneg = s[i] == '-'
			i++
		}
		if i == len(s) {
			return 0, false, false
		}
		e := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			if e < 100000 {
				e = e*10 + int(s[i]-'0')
			}
			i++
		}
		if eneg {
			e = -e
		}
		scale += e
	}
	if i != len(s) {
		return 0, false, false
	}
	zero := 0.0
	if neg {
		zero = math.Copysign(0, -1)
	}
	if mant.Sign() == 0 {
		return zero, true, false
	}
	if neg {
		mant.Neg(mant)
	}
	mag := len(new(big.Int).Abs(mant).String()) + scale
	if mag > 400 {
		return 0, true, true
	}
	if mag < -400 {
		return zero, true, false
	}
	x := new(big.Rat).SetInt(mant)
	ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs16(scale))), nil)
	if scale >= 0 {
		x.Mul(x, new(big.Rat).SetInt(ten))
	} else {
		x.Quo(x, new(big.Rat).SetInt(ten))
	}
	f, _ := x.Float64()
	return f, true, math.IsInf(f, 0)
}

func abs16(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// split16 spreads a text over entries.
func split16(s string, k int) p.AstSlice {
	var l p.AstSlice
	mk := func(t string) { l = append(l, p.Ast{ClassName: "c", Type: p.AstType_String, Value: t}) }
	switch k % 3 {
	case 0:
		mk(s)
	case 1:
		mk(s[:len(s)/2])
		mk(s[len(s)/2:])
	case 2:
		mk("")
		mk(s[:len(s)/3])
		mk(s[len(s)/3:])
	}
	return l
}

func run16(r *kit.Run) {
	minI, maxI := big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
	maxU := new(big.Int).SetUint64(math.MaxUint64)
	var yes, no = func(w *kit.W) { w.SeeStr("value") }, func(w *kit.W) { w.SeeStr("error") }
	ints := func(w *kit.W, s string, radix, k int) {
		trI, trU := str.ParseIntRadix(radix), str.ParseUintRadix(radix)
		if radix == 10 && k%2 == 0 {
			trI, trU = str.ParseInt, str.ParseUint
		}
		w.Desc(func() string { return fmt.Sprintf("integer %q radix %d", s, radix) })
		out, err := trI(p.ParserContext{}, split16(s, k))
		w.Eval()
		v := refInt(s, radix, false)
		if v != nil && v.Cmp(minI) >= 0 && v.Cmp(maxI) <= 0 {
			yes(w)
			if err != nil || len(out) != 1 || out[0].Type != p.AstType_Int || out[0].Value != v.Int64() {
				w.Fail("signed: %v %s, want %v", err, dump(out), v)
				return
			}
		} else if no(w); err == nil {
			w.Fail("signed: %s, want an error", dump(out))
			return
		}
		out, err = trU(p.ParserContext{}, split16(s, k+1))
		w.Eval()
		v = refInt(s, radix, true)
		if v != nil && v.Cmp(maxU) <= 0 {
			if err != nil || len(out) != 1 || out[0].Type != p.AstType_Uint || out[0].Value != v.Uint64() {
				w.Fail("unsigned: %v %s, want %v", err, dump(out), v)
			}
		} else if err == nil {
			w.Fail("unsigned: %s, want an error", dump(out))
		}
		w.States(1)
	}
	float := func(w *kit.W, s string, k int) {
		w.Desc(func() string { return fmt.Sprintf("float %.200q (%d bytes)", s, len(s)) })
		out, err := str.ParseFloat(p.ParserContext{}, split16(s, k))
		w.Eval()
		w.States(1)
		v, ok, over := refFloat(s)
		if !ok || over {
			no(w)
			if err == nil {
				w.Fail("%s, want an error", dump(out))
			}
			return
		}
		yes(w)
		w.Nontrivial()
		if err != nil || len(out) != 1 || out[0].Type != p.AstType_Float || out[0].Value != v || math.Float64bits(out[0].Value.(float64)) != math.Float64bits(v) {
			w.Fail("%v %s, want %v", err, dump(out), v)
		}
	}
	n, fl := 5, 7
	if r.Thorough {
		n, fl = 6, 9
	}
	texts := kit.NewStrings(n, "+", "-", "0", "1", "7", "9", "a", "F", "z", "_", " ", ".", "é", "x")
	radices := []int{2, 3, 8, 10, 16, 36}
	r.Sub("integers", texts.Len(), func(w *kit.W, i int) {
		for _, b := range radices {
			if ints(w, texts.At(i), b, i); w.Failed() {
				return
			}
		}
		w.Nontrivial()
	})
	r.Sub("integer-boundaries", 35*71, func(w *kit.W, i int) {
		radix, k := i%35+2, i/35
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), uint(k))
			v.Add(v, big.NewInt(d))
			for _, neg := range []bool{false, true} {
				if neg {
					v.Neg(v)
				}
				s := v.Text(radix)
				abs := strings.TrimPrefix(s, "-")
				sign := s[:len(s)-len(abs)]
				for j, t := range []string{s, strings.ToUpper(s), sign + "000" + abs, "+" + abs, sign + abs + "0", sign + "+" + abs, s + " ", sign + abs[:len(abs)/2] + "_" + abs[len(abs)/2:]} {
					if ints(w, t, radix, j); w.Failed() {
						return
					}
				}
			}
		}
		w.Nontrivial()
	})
	// every single character more than a number text has, at every place
	bases := []string{"15", "-7", "+0", "9223372036854775807", "1.5", "-1.25e-3", ".5", "5.", "1e5", "0.1E+10"}
	r.Sub("one-more-character", len(bases)*(256+8), func(w *kit.W, i int) {
		t, c := bases[i%len(bases)], ""
		if j := i / len(bases); j < 256 {
			c = string([]byte{byte(j)})
		} else {
			c = []string{"\u0661", "\uff11", "\u2212", "\u00a0", "\u200b", "\u212f", "\u066b", "\ufeff"}[j-256]
		}
		for at := 0; at <= len(t); at++ {
			s := t[:at] + c + t[at:]
			for _, b := range radices {
				if ints(w, s, b, at); w.Failed() {
					return
				}
			}
			if !strings.ContainsAny(s, "_xXpP") {
				if float(w, s, at); w.Failed() {
					return
				}
			}
		}
		w.Nontrivial()
	})
	// texts of many digits that still denote a value
	r.Sub("long-integers", 35*12, func(w *kit.W, i int) {
		radix := i%35 + 2
		for _, k := range []int{i/35*40 + 10, i/35*40 + 23, 1<<uint(i/35) - 1, 1 << uint(i/35)} {
			for _, d := range []string{"0", "1", new(big.Int).SetInt64(math.MaxInt64).Text(radix), new(big.Int).SetUint64(math.MaxUint64).Text(radix), new(big.Int).Lsh(big.NewInt(1), 64).Text(radix)} {
				for j, sign := range []string{"", "-", "+"} {
					if ints(w, sign+strings.Repeat("0", k)+d, radix, j); w.Failed() {
						return
					}
				}
			}
		}
		w.Nontrivial()
	})
	r.Sub("bad-radix", 5, func(w *kit.W, i int) {
		radix := []int{1, 37, -1, -10, 100}[i]
		for _, s := range []string{"", "0", "1", "+1", "-1"} {
			w.Descf("%q radix %d", s, radix)
			_, e1 := str.ParseIntRadix(radix)(p.ParserContext{}, split16(s, 0))
			_, e2 := str.ParseUintRadix(radix)(p.ParserContext{}, split16(s, 0))
			w.Eval()
			if e1 == nil || e2 == nil {
				w.Fail("no error")
			}
		}
		w.Nontrivial()
	})
	floats := kit.NewStrings(fl, "0", "1", "9", ".", "e", "+", "-")
	r.Sub("floats", floats.Len(), func(w *kit.W, i int) { float(w, floats.At(i), i) })
	var hard []string
	add := func(s ...string) { hard = append(hard, s...) }
	add("", " 1", "1 ", "1,5", "1e", "--1", "é", "１", "1.2.3", "1e1.5", "E1", ".e1", "0e999999", "1e-999999", "1e999999", "-1e999", "1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315807e308", "1.797693134862315808e308", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "2.5e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126")
	for k := 50; k <= 70; k++ {
		for d := int64(-3); d <= 3; d++ {
			v := new(big.Int).Lsh(big.NewInt(1), uint(k))
			v.Add(v, big.NewInt(d))
			add(v.String(), "-"+v.String()+".5", v.String()+"e-5", v.String()+".0e+17")
		}
	}
	for _, l := range []int{18, 19, 20, 21, 40, 400, 800} {
		nine := strings.Repeat("9", l)
		add("0."+nine, nine+"e-"+fmt.Sprint(l), "0."+strings.Repeat("0", l)+"1e"+fmt.Sprint(l), "1."+strings.Repeat("0", l)+"1", nine, "9007199254740993."+strings.Repeat("0", l)+"1", "9007199254740993."+strings.Repeat("0", l))
	}
	for e := -330; e <= 312; e++ {
		add(fmt.Sprintf("1e%d", e), fmt.Sprintf("9.999999999999999999E%+d", e), fmt.Sprintf("123456789012345678.5e%d", e))
	}
	r.Sub("hard-floats", len(hard), func(w *kit.W, i int) {
		for k := 0; k < 3 && !w.Failed(); k++ {
			float(w, hard[i], k)
		}
	})
	const block = 512
	r.Sub("characters", 0x110000/block, func(w *kit.W, i int) {
		var c rune
		w.Desc(func() string { return fmt.Sprintf("U+%04X", c) })
		for c = rune(i * block); c < rune((i+1)*block); c++ {
			if c >= 0xd800 && c <= 0xdfff {
				continue
			}
			ru := p.AstSlice{{Type: p.AstType_Rune, Value: c}}
			in := p.AstSlice{{Type: p.AstType_Int, Value: int64(c)}}
			s := string(c)
			run := func(tr p.TransformerFn, l p.AstSlice, want interface{}) p.AstSlice {
				o, err := tr(p.ParserContext{}, l)
				w.Eval()
				if err != nil || len(o) != 1 || o[0].Value != want {
					w.Fail("%v %s, want %#v", err, dump(o), want)
					return p.AstSlice{{}}
				}
				return o
			}
			a := run(str.IntFromRune, ru, int64(c))
			b := run(str.RuneFromInt, in, c)
			x := run(str.StringFromInt, in, s)
			y := run(str.StringFromRune, ru, s)
			if w.Failed() {
				return
			}
			run(str.RuneFromInt, a, c)
			run(str.IntFromRune, b, int64(c))
			run(str.StringFromRune, b, s)
			run(str.StringFromInt, a, s)
			if r, n := decode(x[0].Value.(string)); r != c || n != len(s) || y[0].Value != x[0].Value {
				w.Fail("%q does not read back", x[0].Value)
			}
			if w.Failed() {
				return
			}
		}
		w.Nontrivial()
	})
}
