package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/kit"
)

// wide07 is a wide range of single calls over the whole library; calls of one parser share its
// instance within one bench.
func wide07() []call07 {
	var calls []call07
	add := func(name string, f func() string) {
		calls = append(calls, call07{name, func() func() string {
			s := ""
			if m := try(func() { s = f() }); m != "" {
				s += m
			}
			return func() string { return s }
		}})
	}
	conv := func(name string, mk func() p.ParserFn, texts ...string) {
		var fn p.ParserFn
		for _, t := range texts {
			t := t
			add(name+strconv.Quote(t), func() string {
				if fn == nil {
					fn = mk()
				}
				return showOut(fn(*str.NewStringParserContext(t)))()
			})
		}
	}
	conv("date-time", func() p.ParserFn { return p.Trans(extra.DateTimeStr(), extra.ParseDateTime) },
		"2020-01-01T12:00+05:30", "2020-01-01T12:00+05:45", "2020-01-01T12:00-05:30", "2020-01-01T12:00Z", "2020-01-01T12:00+00:00", "2020-01-01T12:00-00:30", "2020-02-29T23:59:59.999999999+14:00", "2021-02-29T00:00Z", "2020-01-01T12:00:00.5-03:00", "2020-01-01T12:00:00.05-03:00")
	conv("date", func() p.ParserFn { return p.Trans(extra.DateStr(), extra.ParseDate) }, "2020-02-29", "1900-02-29", "2000-02-29", "2020-13-01", "2019-12-31")
	conv("time", func() p.ParserFn { return p.Trans(extra.TimeStr(), extra.ParseTime) }, "10:20", "10:20:30", "10:20:30.25", "24:00", "00:00:60")
	for _, radix := range []int{2, 8, 10, 16, 36} {
		radix := radix
		conv(fmt.Sprint("int", radix), func() p.ParserFn { return p.Trans(p.OneOrMoreTimes(str.Any()), str.ParseIntRadix(radix)) }, "11", "-10", "z", "")
		conv(fmt.Sprint("uint", radix), func() p.ParserFn { return p.Trans(p.OneOrMoreTimes(str.Any()), str.ParseUintRadix(radix)) }, "11", "+10", "-1")
	}
	conv("float", func() p.ParserFn { return p.Trans(extra.FloatNumberStr(), str.ParseFloat) }, "1.5", "1.50", "-0.0", "0.0", "1e400", ".5e-3", "15")
	conv("numeric", extra.NumericStr, "1_0", "1_0.5", "-.5", "x")
	conv("hex", extra.HexNumberStr, "Ff_0", "fF0", "g")
	conv("identifier", extra.UnicodeIdentifierStr, "é1$", "e1", "1e", "变量")
	conv("ascii identifier", extra.AsciiIdentifierStr, "e1$", "é", "_")
	conv("trim", func() p.ParserFn { return p.Trans(p.ZeroOrMoreTimes(str.Any()), str.Trim) }, " a ", "a", "", "\u00a0a\u2003")
	conv("word boundary", func() p.ParserFn {
		return p.ZeroOrMoreTimes(str.Any(), p.First(p.FlatGroup(extra.UnicodeWordBoundary(), p.Zero(z07("|"))), p.FlatGroup(str.WordBoundary(), p.Zero(z07("/"))), p.Zero()))
	}, "ab c", "é a", "-")
	conv("any case", func() p.ParserFn { return str.SeqI("kelvin") }, "KELVIN", "\u212aelvin", "kelvi", "kelvinK")
	conv("excluded", func() p.ParserFn { return str.CharClassN("ab", "c") }, "ab", "ac", "c", "\xff")
	for _, s := range []string{"a,b\nc", "\"a\"\"\"\r\n\r\n,", "a,\"b", " a\u0085b ", "", ",,\n,"} {
		s := s
		add("csv "+strconv.Quote(s), func() string { r, e := csv.Parse(s); return fmt.Sprintf("%q %v", r, e) })
	}
	for _, s := range []string{"1+2*3", "-(4-5)", "7/0", "9223372036854775807+1", "(", "1 1", "0"} {
		s := s
		add("formula "+s, func() string { v, e := formula.Parse(s); return fmt.Sprint(v, e) })
		add("rpn "+s, func() string { v, e := torpn.Parse(s); return fmt.Sprint(v, e) })
	}
	tables := [][][]string{{{"a", "b"}, {"1", "x"}}, {{"b", "a"}, {"y", "2"}}, {{"a"}, {"q"}}, {{"b"}}, {{"A", "B"}, {"3", "4"}}, {{"a", "b"}, {"5"}}}
	for i, t := range tables {
		t := t
		add(fmt.Sprint("table ", i), func() string { return strconv.Quote(csv.ToCsv(t)) })
		add(fmt.Sprint("unmarshal one ", i), func() string {
			type row struct {
				A int    `csv:"a"`
				B string `csv:"b"`
			}
			var l []row
			e := csv.Unmarshal(&l, csv.ToCsv(t))
			return fmt.Sprint(l, e)
		})
		add(fmt.Sprint("unmarshal other ", i), func() string {
			type row struct {
				A string `csv:"b"`
				B int8   `csv:"a"`
			}
			var l []row
			e := csv.Unmarshal(&l, csv.ToCsv(t))
			return fmt.Sprint(l, e)
		})
	}
	for i, cols := range [][]string{{"a", "b"}, {"b"}, {"b", "x", "a"}, {}} {
		cols := cols
		add(fmt.Sprint("marshal one ", i), func() string {
			type row struct {
				A int    `csv:"a"`
				B string `csv:"b"`
			}
			s, e := csv.Marshal(cols, []row{{1, "x"}, {2, "y,"}})
			return fmt.Sprintf("%q %v", s, e)
		})
		add(fmt.Sprint("marshal other ", i), func() string {
			type row struct {
				B bool `csv:"b"`
				C float64
				A uint8 `csv:"a"`
			}
			s, e := csv.Marshal(cols, []row{{true, 1.5, 7}})
			return fmt.Sprintf("%q %v", s, e)
		})
		add(fmt.Sprint("marshal none ", i), func() string {
			type row struct{ A, B string }
			s, e := csv.Marshal(cols, []row{})
			return fmt.Sprintf("%q %v", s, e)
		})
	}
	for _, s := range []string{"ab\ncd", "a\r\nb\rc", "", "é漢\n\n"} {
		for _, at := range []int{0, 2, 3, 5} {
			s, at := s, at
			add(fmt.Sprintf("place %q %d", s, at), func() string {
				return fmt.Sprintf("%+v", p.GetLineAndColPosition(s, p.SourcePosition{Position: at, Length: 1}, 2))
			})
		}
	}
	list := func() p.AstSlice {
		return p.AstSlice{strAst("a", 1), strAst("b", 2), strAst("c", 3)}
	}
	for name, tr := range map[string]func() p.TransformerFn{
		"erase": func() p.TransformerFn { return p.Erase }, "pop": func() p.TransformerFn { return p.Pop }, "exchange": func() p.TransformerFn { return p.Exchange },
		"roll1": func() p.TransformerFn { return p.Roll(1) }, "roll-1": func() p.TransformerFn { return p.Roll(-1) }, "group": func() p.TransformerFn { return p.GroupingTransform }, "concat": func() p.TransformerFn { return str.Concat },
		"push": func() p.TransformerFn { return p.Push(strAst("x", 9)) }, "prepend": func() p.TransformerFn { return p.Prepend(strAst("x", 9)) }, "set": func() p.TransformerFn { return p.SetValue(p.AstType_Int, int64(4)) }, "name": func() p.TransformerFn { return p.ChangeClassName("n") },
	} {
		mk := tr
		for n := 0; n <= 3; n++ {
			n := n
			add(fmt.Sprintf("%s of %d", name, n), func() string {
				l := list()[:n]
				o, e := mk()(*str.NewStringParserContext("s"), l)
				return dump(o) + fmt.Sprint(e) + dump(l)
			})
		}
	}
	objects := objs{1, "a", nil, 2.5, "a"}
	for name, fn := range map[string]func() p.ParserFn{
		"one": func() p.ParserFn { return p.FlatGroup(obj.Seq(1, "a"), p.ZeroOrMoreTimes(obj.Any())) }, "two": func() p.ParserFn { return p.Group(p.OneOrMoreTimes(obj.ObjClass(1, "a", nil))) }, "three": func() p.ParserFn { return p.Trans(p.Repeat(p.Times{Min: 2, Max: 3}, obj.ObjClassN("b")), p.ToSlice) },
	} {
		for pos := 0; pos < 5; pos += 2 {
			fn, pos := fn, pos
			add(fmt.Sprintf("objects %s at %d", name, pos), func() string {
				ctx := *obj.NewObjectParserContextWithTag(objects, 7)
				ctx.Position = pos
				return showOut(fn()(ctx))() + fmt.Sprint(objects)
			})
		}
	}
	add("equal", func() string {
		l := p.AstSlice{}
		return fmt.Sprint(l.ItemEquals(strAst("a", 1), strAst("a", 2)), l.ItemEquals(strAst("a", 1), strAst("b", 1)), l.ItemEquals(p.Ast{Type: p.AstType_ListOfAst, Value: list()}, p.Ast{Type: p.AstType_ListOfAst, Value: list()}))
	})
	add("traverse", func() string {
		var sb strings.Builder
		t := p.Ast{Type: p.AstType_ListOfAst, Value: list()}
		o, _, _, _, e := t.Traverse(func(_ interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) {
			fmt.Fprint(&sb, a.Position, ">")
			return a, p.WayThereMode_Last, nil
		}, func(_ interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
			a.ClassName += "!"
			return a, 0, 0, nil, nil
		}, func(interface{}, p.Ast, p.Ast, interface{}, error) {}, nil)
		return sb.String() + dump(p.AstSlice{o}) + fmt.Sprint(e)
	})
	return calls
}

// sortedWide07 is wide07 in a fixed order (part of it is generated from maps).
func sortedWide07() []call07 {
	l := wide07()
	for i := range l {
		for j := i; j > 0 && l[j].name < l[j-1].name; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func init() {
	kit.RegisterAux("c07wide", func(arg string) string {
		k, _ := strconv.Atoi(arg)
		return sortedWide07()[k].run()()
	})
	// all of them in one process, beginning with one of them, forwards or backwards
	kit.RegisterAux("c07order", func(arg string) string {
		k, _ := strconv.Atoi(arg)
		l := sortedWide07()
		res := make([]string, len(l))
		for i := range l {
			j := (k/2 + i) % len(l)
			if k%2 == 1 {
				j = (k/2 + len(l) - i) % len(l)
			}
			res[j] = l[j].run()()
		}
		return strings.Join(res, "\x00")
	})
}

func wide07run(r *kit.Run) {
	n := len(sortedWide07())
	want := make([]string, n)
	names := make([]string, n)
	for k, c := range sortedWide07() {
		names[k] = c.name
	}
	r.Sub("calls-alone", n, func(w *kit.W, k int) {
		s, err := kit.Aux("c07wide", strconv.Itoa(k))
		want[k] = s
		w.Eval()
		if err != nil {
			w.Descf("%s alone in its process", names[k])
			w.Fail("%v %s", err, s)
		}
	})
	r.Sub("orders", 2*n, func(w *kit.W, k int) {
		s, err := kit.Aux("c07order", strconv.Itoa(k))
		w.Eval()
		w.Transitions(n)
		w.Descf("all calls in one process beginning with %s, direction %d", names[k/2], k%2)
		if err != nil {
			w.Fail("%v", err)
			return
		}
		got := strings.Split(s, "\x00")
		for j := range want {
			if want[j] == "" { // a single case is being replayed
				want[j], _ = kit.Aux("c07wide", strconv.Itoa(j))
			}
			if j >= len(got) || got[j] != want[j] {
				w.Fail("%s\n   got %s\n alone %s", names[j], got[j], want[j])
				return
			}
		}
		w.Nontrivial()
	})
}

func strAst(s string, at int) p.Ast {
	return p.Ast{ClassName: "s", Type: p.AstType_String, Value: s, SourcePosition: p.SourcePosition{Position: at, Length: 1}}
}
