package props

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C28", Level: "exploration",
		Rule:   "every text over three alphabets (separators, quotes, blanks, each line-break character, multi-byte and ill-formed characters, letters) up to 4..9 symbols, compared with a hand-written scanner of the grammar; a case is non-trivial when the text is a document of at least two cells or is rejected",
		Bounds: "7 symbols of {\" , space LF CR a} (thorough 8), 9 of {\" , LF a} (11), 4 of 18 symbols (5); all code points as a cell, around a cell, inside quotes and between rows; documents of up to 1100 rows or cells and cells of 3000 characters; all texts twice in a row on the one shared parser",
		Assumptions: []string{
			"a cell may be several quoted parts one after another, which are joined",
			"a byte of ill-formed UTF-8 in a cell is kept or replaced by U+FFFD",
			"a trailing row whose only cell is empty counts as blank however it was written",
		},
		Run: run28,
	})
}

const (
	wsp28 = "\t \u00a0"
	brk28 = "\n\v\f\r\u0085"
)

func rune28(s string, i int) (rune, int) {
	if i >= len(s) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(s[i:])
}

func in28(r rune, set string) bool {
	return r >= 0 && r != utf8.RuneError && strings.ContainsRune(set, r)
}

func skip28(s string, i int) int {
	for {
		r, n := rune28(s, i)
		if !in28(r, wsp28) {
			return i
		}
		i += n
	}
}

// refCsv is the reference scanner; ok is false when the text is not a document.
func refCsv(s string) (rows [][]string, ok bool) {
	i := 0
	for {
		var row []string
		for {
			cell := ""
			if j := skip28(s, i); strings.HasPrefix(s[j:], `"`) {
				for {
					j++
					for {
						if j >= len(s) {
							return nil, false // unterminated
						}
						if strings.HasPrefix(s[j:], `""`) {
							cell += `"`
							j += 2
							continue
						}
						if s[j] == '"' {
							break
						}
						cell += s[j : j+1]
						j++
					}
					j = skip28(s, j+1)
					if !strings.HasPrefix(s[j:], `"`) {
						break
					}
				}
				i = j
			} else {
				j := i
				for j < len(s) {
					r, n := rune28(s, j)
					if r == ',' || in28(r, brk28) {
						break
					}
					j += n
				}
				cell = strings.Trim(s[i:j], wsp28+brk28)
				i = j
			}
			row = append(row, cell)
			if !strings.HasPrefix(s[i:], ",") {
				break
			}
			i++
		}
		rows = append(rows, row)
		r, _ := rune28(s, i)
		if r == -1 {
			break
		}
		if !in28(r, brk28) {
			return nil, false
		}
		for {
			r, n := rune28(s, i)
			if !in28(r, brk28) {
				break
			}
			i += n
		}
	}
	for len(rows) > 0 && len(rows[len(rows)-1]) == 1 && rows[len(rows)-1][0] == "" {
		rows = rows[:len(rows)-1]
	}
	return rows, true
}

// valid28 replaces every ill-formed byte by U+FFFD.
func valid28(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}

// sameTable28 compares tables up to the replacement of ill-formed bytes.
func sameTable28(got, want [][]string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if len(got[i]) != len(want[i]) {
			return false
		}
		for j := range got[i] {
			if got[i][j] != want[i][j] && (utf8.ValidString(want[i][j]) || valid28(got[i][j]) != valid28(want[i][j])) {
				return false
			}
		}
	}
	return true
}

func check28(w *kit.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("csv %q", clip26(s)) })
	want, ok := refCsv(s)
	got, err := csv.Parse(s)
	w.Eval()
	switch {
	case !ok:
		if err == nil {
			w.Fail("accepted as %q", got)
		} else if got != nil {
			w.Fail("error and rows %q", got)
		}
		w.SeeStr("error")
		w.Nontrivial()
	case err != nil:
		w.Fail("error %v, want %q", err, want)
	case len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) && !sameTable28(got, want):
		w.Fail("rows\n   got %q\n  want %q", got, want)
	default:
		if len(want) > 1 || len(want) == 1 && len(want[0]) > 1 {
			w.Nontrivial()
		}
		w.SeeStr(fmt.Sprint(want))
	}
}

func run28(r *kit.Run) {
	k := 0
	if r.Thorough {
		k = 1
	}
	spaces := []*kit.Strings{
		kit.NewStrings(7+k, `"`, ",", " ", "\n", "\r", "a"),
		kit.NewStrings(9+2*k, `"`, ",", "\n", "a"),
		kit.NewStrings(4+k, `"`, ",", " ", "\t", "\u00a0", "\n", "\v", "\f", "\r", "\u0085", "a", "漢", "\u2028", "\u3000", "\x80", "\xc2", "\x00", "'"),
		kit.NewStrings(6+k, `"a"`, `""`, `,`, ` `, "\n", `b"`, `"c`),
	}
	for n, sp := range spaces {
		sp := sp
		r.Sub(fmt.Sprintf("texts-%d", n), sp.Len(), func(w *kit.W, i int) { check28(w, sp.At(i)) })
	}
	step := 1
	r.Sub("code-points", 0x110000/step, func(w *kit.W, i int) {
		c := string(rune(i))
		if i >= 0xd800 && i <= 0xdfff {
			return
		}
		if !r.Thorough && i > 0x3100 && i%16 != 1 {
			return
		}
		for _, s := range []string{c, c + "a" + c + "," + c, `"` + c + `"`, c + `"a"` + c, "a" + c + c + "b,c"} {
			if check28(w, s); w.Failed() {
				return
			}
		}
	})
	units := []string{"a,", "a\n", `"a",`, `"a"` + "\n", ",", "\n", " ", "a", `"`, `""`, "\r\n", "a,b\r\n", `"x""y",`, " \t", "é", ` "a" `, "\t", "\u00a0", "\v"}
	sizes := []int{1, 2, 15, 16, 17, 100, 255, 256, 257, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1100, 2049}
	r.Sub("long", len(units)*len(sizes)*8, func(w *kit.W, i int) {
		u, n := units[i%len(units)], sizes[i/len(units)%len(sizes)]
		s := strings.Repeat(u, n)
		check28(w, []string{s, s + "z", `"` + s + `"`, "h1,h2\n" + s + `,"q"`, "x," + s + `"q,"` + s + "\n" + s + `"r,s"`, "x" + s + "y", s + "x" + s + ",y", `"a"` + s + `"b"`}[i/len(units)/len(sizes)])
	})
	r.Sub("line-breaks", 3125, func(w *kit.W, i int) {
		brks := []string{"\n", "\v", "\f", "\r", "\u0085"}
		s := "a"
		for k := 0; k < 5; k++ {
			s += brks[i%5]
			i /= 5
			if k == 1 {
				s += "b,"
			}
			if k == 3 {
				s += `"c` + brks[i%5] + `d"`
			}
		}
		check28(w, s)
	})
}
