// Package conc holds the programs that use one parser instance from several threads.
package conc

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	p "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	obj "github.com/shellyln/takenoco/object"
	str "github.com/shellyln/takenoco/string"

	"verif/mc/vsched"
)

// Thread is the work of one thread; the function it returns renders the outcome.
type Thread func() func() string

// Scenario makes fresh shared instances and the threads that use them.
type Scenario struct {
	Name   string
	Global bool // uses instances made by package initialisation: first use needs a fresh process
	Make   func() []Thread
}

// Guard turns a panic into an outcome.
func Guard(t Thread) (out func() string) {
	defer func() {
		if x := recover(); x != nil {
			m := fmt.Sprint("panic: ", x)
			out = func() string { return m }
		}
	}()
	return t()
}

func dump(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case objs:
		fmt.Fprintf(sb, "%v", []interface{}(x))
	case p.AstSlice:
		sb.WriteByte('[')
		for _, a := range x {
			dump(sb, a)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case []p.Ast:
		dump(sb, p.AstSlice(x))
	case p.Ast:
		fmt.Fprintf(sb, "{%s %d %v @%d+%d ", x.ClassName, x.OpCode, x.Type, x.Position, x.Length)
		dump(sb, x.Value)
		sb.WriteByte('}')
	default:
		fmt.Fprintf(sb, "%T:%v", v, v)
	}
}

func show(out p.ParserContext, err error) func() string {
	return func() string {
		var sb strings.Builder
		if err != nil {
			fmt.Fprintf(&sb, "error %v at %d", err, out.Position)
			return sb.String()
		}
		fmt.Fprintf(&sb, "%v", out.MatchStatus)
		if out.MatchStatus == p.MatchStatus_Matched {
			fmt.Fprintf(&sb, " @%d tag %v %q ", out.Position, out.Tag, out.Str)
			dump(&sb, out.AstStack)
		}
		return sb.String()
	}
}

// text is a parse of a string by a shared parser.
func text(fn p.ParserFn, src string) Thread {
	return func() func() string {
		return show(fn(*str.NewStringParserContextWithTag(src, "tag of "+src)))
	}
}

func list(fn p.ParserFn, src p.SliceLike) Thread {
	return func() func() string {
		return show(fn(*obj.NewObjectParserContextWithTag(src, 5)))
	}
}

// pairs makes a scenario whose threads parse the texts with one instance.
func pairs(name string, mk func() p.ParserFn, srcs ...string) Scenario {
	return Scenario{Name: name, Make: func() []Thread {
		fn := mk()
		var ts []Thread
		for _, s := range srcs {
			ts = append(ts, text(fn, s))
		}
		return ts
	}}
}

// point is a custom parser with a scheduling point of its own.
func point() p.ParserFn {
	return p.LightBaseParser("point", func(ctx p.ParserContext) (p.ParserContext, error) {
		vsched.P()
		ctx.MatchStatus = p.MatchStatus_Matched
		return ctx, nil
	})
}

func recursive() p.ParserFn {
	var expr func() p.ParserFn
	expr = func() p.ParserFn {
		vsched.P()
		return p.First(
			str.Seq("x"),
			p.Trans(p.FlatGroup(str.Seq("("), point(), p.Indirect(expr), str.Seq(")")), str.Concat),
		)
	}
	return p.FlatGroup(p.Indirect(expr), str.End())
}

func mutual() p.ParserFn {
	var a, b func() p.ParserFn
	a = func() p.ParserFn { return p.First(str.Seq("y"), p.FlatGroup(str.Seq("a"), p.Indirect(b))) }
	b = func() p.ParserFn {
		vsched.P()
		return p.Group(str.Seq("b"), p.ZeroOrMoreTimes(p.Indirect(a)))
	}
	return p.First(p.Indirect(a), p.Indirect(b))
}

func indirectOfIndirect() p.ParserFn {
	return p.Indirect(func() p.ParserFn {
		vsched.P()
		return p.Indirect(func() p.ParserFn {
			vsched.P()
			return p.Trans(p.OneOrMoreTimes(str.CharClass("a", "b")), str.Concat, p.ChangeClassName("word"))
		})
	})
}

func item(v string) p.Ast {
	return p.Ast{ClassName: "item", Type: p.AstType_String, Value: v}
}

func transformers() p.ParserFn {
	return p.FlatGroup(
		p.Trans(p.OneOrMoreTimes(str.CharRange(p.RuneRange{Start: 'a', End: 'c'})), p.Push(item("pushed")), p.Prepend(item("prepended"))),
		p.Trans(p.ZeroOrMoreTimes(str.CharClass("d", "e")), p.GroupingTransform, p.SetOpCodeAndClassName(7, "grouped"), p.SetOpCode(8)),
		p.Trans(p.FlatGroup(p.Zero(item("z1"), item("z2"))), p.Exchange, p.Roll(1), p.SetValue(p.AstType_Int, int64(3))),
		p.Trans(p.Zero(item("gone")), p.Erase), p.Trans(p.Zero(item("a"), item("popped")), p.Pop),
	)
}

func reducer(rtol bool) p.TransformerFn {
	is := func(c string) p.ParserFn {
		return obj.ObjClassFn(func(x interface{}) bool { return x.(p.Ast).Value == c })
	}
	join := func(_ p.ParserContext, l p.AstSlice) (p.AstSlice, error) {
		t := "("
		for _, a := range l {
			t += a.Value.(p.Ast).Value.(string)
		}
		return p.AstSlice{item(t + ")")}, nil
	}
	return p.ProductionRule([]p.Precedence{
		{Rules: []p.ParserFn{p.Trans(p.FlatGroup(obj.Any(), is("*"), obj.Any()), join)}, Rtol: rtol},
		{Rules: []p.ParserFn{p.Trans(p.FlatGroup(obj.Any(), is("+"), obj.Any()), join)}, Rtol: rtol},
	}, p.FlatGroup(p.Start(), obj.Any(), obj.End()))
}

// objs is a source of plain values.
type objs []interface{}

func (s objs) Len() int                         { return len(s) }
func (s objs) Get(i int) interface{}            { return s[i] }
func (s objs) Set(i int, v interface{})         { s[i] = v }
func (s objs) Reslice(a, b int) p.SliceLike     { return s[a:b] }
func (s objs) Copy(a, b int) p.SliceLike        { return append(make(objs, 0, b-a), s[a:b]...) }
func (s objs) Make(l, c int) p.SliceLike        { return make(objs, l, c) }
func (s objs) ItemEquals(a, b interface{}) bool { return a == b }

type rec struct {
	A string
	B int8 `csv:"b b"`
	C float64
}

type nullTracer struct{}

func (nullTracer) Before(string, int, string, *p.ParserContext)             {}
func (nullTracer) After(string, int, string, *p.ParserContext, error)       {}
func (nullTracer) Panic(string, int, string, *p.ParserContext, interface{}) {}

func val(f func() (interface{}, error)) Thread {
	return func() func() string {
		v, err := f()
		return func() string { return fmt.Sprintf("%#v %v", v, err) }
	}
}

func csvText(s string) Thread {
	return val(func() (interface{}, error) { return csv.Parse(s) })
}
func formulaText(s string) Thread {
	return val(func() (interface{}, error) { return formula.Parse(s) })
}
func torpnText(s string) Thread {
	return val(func() (interface{}, error) { return torpn.Parse(s) })
}

// Scenarios are all programs.
func Scenarios() []Scenario {
	global := func(name string, ts ...Thread) Scenario {
		return Scenario{Name: name, Global: true, Make: func() []Thread { return ts }}
	}
	all := []Scenario{
		pairs("recursive", recursive, "(x)", "x"),
		pairs("recursive-same", recursive, "(x)", "(x)"),
		pairs("recursive-fail", recursive, "((x", "(x)"),
		pairs("recursive-3", recursive, "(x)", "x", "(("),
		pairs("mutual", mutual, "aby", "bay"),
		pairs("mutual-3", mutual, "ab", "b", "y"),
		pairs("indirect-indirect", indirectOfIndirect, "ab", "b"),
		pairs("indirect-shared", func() p.ParserFn {
			i := indirectOfIndirect()
			return p.First(p.FlatGroup(i, str.Seq("!")), i)
		}, "a!", "b"),
		pairs("tokens", func() p.ParserFn {
			return p.ZeroOrMoreTimes(p.First(str.Seq("ab"), str.SeqI("CD"), str.CharRange(p.RuneRange{Start: '0', End: '9'}), str.CharRangeN(p.RuneRange{Start: 'a', End: 'z'}),
				str.CharClassFn(func(r rune) bool { return r == 'z' }), str.CharClassN("y", "x")))
		}, "ab1z", "cD?"),
		pairs("classes", func() p.ParserFn {
			return p.FlatGroup(p.Start(), p.First(str.Whitespace(), str.Alpha(), str.Number()), p.First(str.LineBreak(), str.WhitespaceNoLineBreak(), str.Alnum(), str.Any()), str.WordBoundary(), p.ZeroOrOnce(str.HexNumber()), p.ZeroOrOnce(str.OctNumber()), p.ZeroOrOnce(str.BinNumber()), str.End())
		}, "a f1", " b"),
		pairs("backtracking", func() p.ParserFn {
			return p.First(p.FlatGroup(p.Group(str.Any(), str.Any()), str.Seq("!")), p.FlatGroup(str.Any(), p.Group(p.ZeroOrMoreTimes(str.Any()))))
		}, "ab!", "abc"),
		pairs("repeat", func() p.ParserFn {
			return p.FlatGroup(p.Repeat(p.Times{Min: 1, Max: 2}, str.Seq("a")), p.Once(str.Seq("b")), p.OneOrMoreTimes(str.Seq("c"), p.ZeroOrOnce(str.Seq("d"))))
		}, "aabcdc", "abc"),
		pairs("look-around", func() p.ParserFn {
			return p.OneOrMoreTimes(p.LookAheadN(str.Seq("x")), p.LookAhead(str.Any()), str.Any(), p.LookBehind(1, 1, str.Any()), p.LookBehindN(1, 2, str.Seq("q")))
		}, "abx", "aq"),
		pairs("transformers", transformers, "abde", "cb"),
		pairs("push-prepend", func() p.ParserFn {
			return p.Trans(str.Any(), p.Push(item("p")), p.Prepend(item("q")))
		}, "a", "bc"),
		pairs("texts", func() p.ParserFn {
			return p.FlatGroup(p.Trans(p.OneOrMoreTimes(str.CharClassN(",")), str.Concat, str.Trim), str.Any(), p.Trans(p.OneOrMoreTimes(str.Number()), str.Concat, str.ParseInt), str.Any(),
				p.Trans(p.OneOrMoreTimes(str.HexNumber()), str.Concat, str.ParseUintRadix(16), p.ChangeClassName("hex")))
		}, " a ,12,f", "b,7,x"),
		pairs("numbers", func() p.ParserFn {
			return p.First(p.FlatGroup(p.Trans(extra.FloatNumberStr(), str.ParseFloat), str.End()), p.Trans(extra.IntegerNumberStr(), str.ParseInt))
		}, "1.5", "-7"),
		pairs("numeric", func() p.ParserFn { return p.First(extra.NumericStr(), extra.HexNumberStr()) }, "0b1", "12"),
		pairs("identifiers", func() p.ParserFn {
			return p.First(p.FlatGroup(extra.AsciiIdentifierStr(), str.End()), p.FlatGroup(extra.UnicodeIdentifierStr(), extra.UnicodeWordBoundary()))
		}, "a1", "é"),
		pairs("dates", func() p.ParserFn {
			return p.First(p.Trans(p.FlatGroup(extra.DateTimeStr()), extra.ParseDateTime), p.Trans(extra.DateStr(), extra.ParseDate), p.Trans(extra.TimeStr(), extra.ParseTime))
		}, "2020-02-29", "2021-01-02T03:04Z"),
		pairs("match", func() p.ParserFn {
			return p.FlatGroup(str.Any(), p.Match(1)(p.Case{If: p.TopIsStr("a"), Let: []p.TransformerFn{p.ChangeClassName("isA"), p.SetValue(p.AstType_Int, int64(1))}}, p.Case{If: p.TopIsAny, Let: []p.TransformerFn{p.Push(item("m"))}}), str.Any())
		}, "ab", "ba"),
		pairs("rules", func() p.ParserFn {
			return p.Trans(p.OneOrMoreTimes(str.Any()), reducer(false))
		}, "a+b", "c*d"),
		pairs("rules-rtol", func() p.ParserFn {
			return p.Trans(p.OneOrMoreTimes(str.Any()), reducer(true), p.ChangeClassName("r"))
		}, "a+b", "c+"),
		pairs("errors", func() p.ParserFn {
			return p.First(str.Seq("a"), p.FlatGroup(str.Seq("b"), p.Error("after b")), p.Trans(str.Any(), p.TransformError("bad")))
		}, "b", "c", "a"),
		pairs("if-zero", func() p.ParserFn {
			z := p.Zero(item("1"), item("2"))
			return p.FlatGroup(p.If(true, z, p.Unmatched()), str.Any(), z, p.If(false, z, str.Any()), p.ZeroOrOnce(p.Unmatched()))
		}, "ab", "a"),
		pairs("custom", func() p.ParserFn {
			return p.BaseParser("custom", func(n, bottom int, ctx p.ParserContext) (p.ParserContext, error) {
				vsched.P()
				ctx.AstStack = append(ctx.AstStack[:bottom:bottom], p.Ast{ClassName: "custom", Type: p.AstType_Int, Value: ctx.Position*10 + n})
				return ctx, nil
			}, []interface{}{p.Times{Min: 1, Max: 3}}, []p.ParserFn{str.CharClass("a", "b")}, []p.TransformerFn{p.ChangeClassName("done")})
		}, "ab", "baa"),
		pairs("traced", func() p.ParserFn {
			return p.DebugTrace("s", nullTracer{})(p.FlatGroup(str.Any(), p.Group(str.Any())), p.ZeroOrMoreTimes(str.Seq("c")))
		}, "abcc", "ab"),
		{Name: "objects", Make: func() []Thread {
			fn := p.FlatGroup(obj.Seq(1, "a"), p.Group(p.ZeroOrMoreTimes(obj.ObjClass("b", "c"))), obj.ObjClassN(9), obj.ObjClassFn(func(x interface{}) bool { return x == true }), obj.Any(), obj.End())
			src := objs{1, "a", "b", 2, true, nil}
			return []Thread{list(fn, src), list(fn, src), list(fn, objs{1, "a", 9})}
		}},
		{Name: "values", Make: func() []Thread {
			l := p.AstSlice{item("x"), {ClassName: "n", Type: p.AstType_Int, Value: int64(65)}}
			group := func(tr p.TransformerFn) Thread {
				return func() func() string {
					out, err := tr(p.ParserContext{}, append(p.AstSlice{}, l...))
					return func() string {
						var sb strings.Builder
						dump(&sb, out)
						return fmt.Sprint(sb.String(), err)
					}
				}
			}
			sl := p.AstSlice{{ClassName: "a", Type: p.AstType_Int, Value: int64(1)}, {ClassName: "b", Type: p.AstType_Int, Value: int64(2)}}
			slice := func() func() string {
				out, err := p.ToSlice(p.ParserContext{Slice: objs{}}, append(p.AstSlice{}, sl...))
				return func() string {
					var sb strings.Builder
					dump(&sb, out)
					return fmt.Sprint(sb.String(), err)
				}
			}
			return []Thread{slice, group(p.GroupingTransform), slice}
		}},
		{Name: "positions", Make: func() []Thread {
			pos := func(s string, at int) Thread {
				return val(func() (interface{}, error) {
					return p.GetLineAndColPosition(s, p.SourcePosition{Position: at}, 4), nil
				})
			}
			return []Thread{pos("a\nb\tc", 4), pos("x\r\n", 1)}
		}},
		pairs("spellings", func() p.ParserFn { return p.OneOrMoreTimes(str.SeqI("ab")) }, "aB", "AbAB"),
		pairs("lengths", func() p.ParserFn {
			return p.FlatGroup(str.CharClass("abc", "d"), p.ZeroOrOnce(str.CharClassN("abc", "d")))
		}, "dx", "abc"),
		pairs("behind", func() p.ParserFn {
			return p.FlatGroup(str.Any(), p.LookBehind(0, 2, p.FlatGroup(str.Seq("x"), str.Any())), str.Any())
		}, "xy", "ayz"),
		pairs("times", extra.TimeStr, "10:20:30.12", "01:02:03.4"),
		pairs("date-times", func() p.ParserFn { return p.Trans(extra.DateTimeStr(), extra.ParseDateTime) }, "2020-02-29T01:02:03.5+01:00", "2021-01-02T03:04:05.25-02:30"),
		pairs("time-values", func() p.ParserFn { return p.Trans(extra.TimeStr(), extra.ParseTime) }, "10:20:30.12", "01:02"),
		pairs("word-boundaries", func() p.ParserFn {
			return p.FlatGroup(str.Any(), p.First(p.FlatGroup(extra.UnicodeWordBoundary(), p.Zero(item("boundary"))), p.Zero(item("none"))), str.Any())
		}, "é!", "—a", "é1"),
		pairs("radices", func() p.ParserFn {
			return p.First(p.FlatGroup(extra.NumericStr(), str.End()), extra.HexNumberStr(), extra.OctalNumberStr(), extra.BinaryNumberStr(), extra.FloatNumberStr())
		}, "0o17", "0x1f", "-2.5e3"),
		pairs("rolls", func() p.ParserFn {
			return p.Trans(p.OneOrMoreTimes(str.Any()), p.Roll(2))
		}, "abc", "abcde"),
		pairs("converted", func() p.ParserFn {
			each := func(c string, tr ...p.TransformerFn) p.ParserFn {
				return p.FlatGroup(str.Seq(c), p.Trans(p.OneOrMoreTimes(str.CharClassN(";")), append([]p.TransformerFn{str.Concat}, tr...)...))
			}
			return p.FlatGroup(p.First(each("i", str.TrimStart, str.TrimEnd, str.ParseIntRadix(0)), each("u", str.ParseUint), each("f", str.ParseFloat), each("r", str.ParseInt, str.RuneFromInt, str.IntFromRune, str.StringFromInt), each("s", str.ParseInt, str.RuneFromInt, str.StringFromRune)), str.Any())
		}, "i0x1f;", "i 7;"),
		pairs("converted-more", func() p.ParserFn {
			num := func() p.ParserFn { return p.Trans(p.OneOrMoreTimes(str.Number()), str.Concat) }
			return p.First(p.FlatGroup(str.Seq("u"), p.Trans(num(), str.ParseUint)), p.FlatGroup(str.Seq("f"), p.Trans(num(), str.ParseFloat)),
				p.FlatGroup(str.Seq("r"), p.Trans(num(), str.ParseInt, str.RuneFromInt, str.IntFromRune, str.StringFromInt)), p.FlatGroup(str.Seq("s"), p.Trans(num(), str.ParseInt, str.RuneFromInt, str.StringFromRune)))
		}, "r65", "s66", "u7"),
		{Name: "cases", Make: func() []Thread {
			is := func(c p.MatchCaseIfFn) p.Case { return p.Case{If: c, Let: []p.TransformerFn{p.ChangeClassName("is")}} }
			fn := p.FlatGroup(p.Trans(p.FlatGroup(str.Any(), p.Zero(item("z"))), p.Pop), p.Match(1)(is(p.TopIsStr("q")), is(p.TopIs("w", int64(2))),
				is(p.TopIsInt(1)), is(p.TopIsUint(1)), is(p.TopIsFloat(1)), is(p.TopIsBool(true)), is(p.TopIsRune('a')), is(p.TopIsAny)))
			return []Thread{text(fn, "q"), text(fn, "w")}
		}},
		{Name: "trees", Make: func() []Thread {
			walk := func(name string) Thread {
				return func() func() string {
					l := p.AstSlice{item(name), {ClassName: "g", Type: p.AstType_ListOfAst, Value: p.AstSlice{item(name + "1"), item(name + "2")}}}
					seen := ""
					root := p.Ast{ClassName: "root", Type: p.AstType_ListOfAst, Value: l.Copy(0, 2)}
					out, _, _, _, err := root.Traverse(func(c interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) {
						seen += fmt.Sprint(c, a.ClassName, " ")
						return a, p.WayThereMode_None, nil
					}, func(c interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
						a.OpCode++
						return a, 1, p.TraverseOpcode_Nop, nil, nil
					}, func(c interface{}, a, child p.Ast, thrown interface{}, err error) {}, name)
					return func() string {
						var sb strings.Builder
						dump(&sb, out)
						dump(&sb, l)
						return fmt.Sprint(seen, sb.String(), err)
					}
				}
			}
			return []Thread{walk("a"), walk("b")}
		}},
		{Name: "ast-source", Make: func() []Thread {
			fn := p.Trans(p.FlatGroup(p.OneOrMoreTimes(obj.ObjClass(item("a"), item("b"))), obj.Any()), p.ToSlice)
			return []Thread{list(fn, p.AstSlice{item("a"), item("c")}), list(fn, p.AstSlice{item("b"), item("a"), item("d")})}
		}},
		{Name: "boxes", Make: func() []Thread {
			use := func(n int64) Thread {
				return func() func() string {
					v, s, m := n, []int64{n, n + 1}, map[string]string{}
					b := p.ReflectionBox{Val: reflect.ValueOf(&v).Elem()}
					x := b.GetInt()
					b.SetInt(x + 10)
					p.ReflectionBox{Val: reflect.ValueOf(&s).Elem()}.Index(1).SetAny(n * 3)
					e := p.MapContainerReflectionBox{Container: reflect.ValueOf(m)}.MapIndex("k")
					e.SetString(fmt.Sprint("s", n))
					got := e.GetString()
					return func() string { return fmt.Sprint(x, v, s, m, got) }
				}
			}
			return []Thread{use(1), use(2)}
		}},
		{Name: "same-error", Make: func() []Thread {
			fn := p.First(str.Seq("a"), p.Error("stop"))
			return []Thread{text(fn, "b"), text(fn, "c")}
		}},
		{Name: "reports", Make: func() []Thread {
			at := func(s string, n int) Thread {
				return val(func() (interface{}, error) {
					return p.GetLineAndColPosition(s, p.SourcePosition{Position: n}, 8), nil
				})
			}
			return []Thread{at("a\nb\ncd", 5), at("abcdef", 5)}
		}},
		{Name: "shared-transformers", Make: func() []Thread {
			trs := []p.TransformerFn{p.Push(item("p")), p.Prepend(item("q")), p.SetValue(p.AstType_String, "v"), p.Roll(1), str.ParseIntRadix(2), p.SetOpCodeAndClassName(3, "c")}
			use := func(name string, pos int) Thread {
				return func() func() string {
					l := p.AstSlice{{ClassName: name, Type: p.AstType_String, Value: "101", SourcePosition: p.SourcePosition{Position: pos, Length: 3}}}
					var rs []func() string
					for _, tr := range trs {
						out, err := tr(p.ParserContext{Tag: name}, append(p.AstSlice{}, l...))
						rs = append(rs, func() string {
							var sb strings.Builder
							dump(&sb, out)
							return fmt.Sprintln(sb.String(), err)
						})
					}
					return func() string {
						t := ""
						for _, r := range rs {
							t += r()
						}
						return t
					}
				}
			}
			return []Thread{use("n1", 10), use("n2", 20)}
		}},
		{Name: "build-and-run", Make: func() []Thread {
			// building parsers while others run
			fn := recursive()
			build := func() func() string {
				return show(transformers()(*str.NewStringParserContext("abd")))
			}
			return []Thread{text(fn, "(x)"), build, build}
		}},
		global("csv", csvText("a,b\n\"c\"\"\",d"), csvText("x")),
		global("csv-error", csvText("\"a"), csvText("b\nc")),
		global("formula", formulaText("1+2"), formulaText("(3)")),
		global("formula-error", formulaText("1+"), formulaText("-(2)")),
		global("torpn", torpnText("1+2"), torpnText("-(3)")),
		global("csv-structs", val(func() (interface{}, error) {
			return csv.Marshal([]string{"A", "b b"}, []rec{{"x", 1, 2}, {"y,", 3, 4}})
		}), val(func() (interface{}, error) {
			var out []rec
			err := csv.Unmarshal(&out, "C,A\n1.5,z\n2,w")
			return fmt.Sprintf("%+v", out), err
		}), val(func() (interface{}, error) { return csv.ToCsv([][]string{{"a", "\""}, {" b"}}), nil })),
		global("csv-marshals", val(func() (interface{}, error) {
			return csv.Marshal([]string{"A"}, []rec{{"x", 1, 2}})
		}), val(func() (interface{}, error) {
			return csv.Marshal([]string{"b b", "A"}, []rec{{"y", 3, 4}})
		})),
		global("csv-unmarshals", val(func() (interface{}, error) {
			var out []rec
			err := csv.Unmarshal(&out, "C\n1.5")
			return fmt.Sprintf("%+v", out), err
		}), val(func() (interface{}, error) {
			var out []struct{ A string }
			err := csv.Unmarshal(&out, "A\nq")
			return fmt.Sprintf("%+v", out), err
		})),
		global("csv-writers", val(func() (interface{}, error) { return csv.ToCsv([][]string{{"a", "\""}}), nil }),
			val(func() (interface{}, error) { return csv.ToCsv([][]string{{" b"}, {"c,"}}), nil })),
		global("csv-lines", csvText("a,b\nc"), csvText("d,e")),
		global("front-ends-3", formulaText("2*3"), torpnText("2*3"), csvText("p,q")),
	}
	return all
}
