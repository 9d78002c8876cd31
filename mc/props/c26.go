package props

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C26", Level: "exploration",
		Rule:   "every text over {a, tab, CR, LF, é} up to 6 (thorough 8) symbols and over {a, CR, LF} up to 9 (11), every byte position from 0 to the length, tab sizes 0, 1, 2, 4 and 8; a case is non-trivial when the position is not on the first line",
		Bounds: "texts of up to 8 (9) symbols of 5 kinds and 11 (13) of 3 kinds, all positions, 5 tab sizes; long lines and many lines up to 3000",
		Assumptions: []string{
			"columns count bytes",
			"between the CR and the LF of one line break, only line index and column are required to add up to the position",
			"0 <= position <= length, tab size >= 0",
		},
		Run: run26,
	})
}

// lines26 splits a text into lines: start, end (without the break), text of the break.
type line26 struct {
	from, to int
	brk      string
}

func lines26(s string) (out []line26) {
	from := 0
	for i := 0; i < len(s); {
		n := 0
		switch {
		case strings.HasPrefix(s[i:], "\r\n"):
			n = 2
		case s[i] == '\r', s[i] == '\n':
			n = 1
		default:
			i++
			continue
		}
		out = append(out, line26{from, i, s[i : i+n]})
		i += n
		from = i
	}
	return append(out, line26{from, len(s), ""})
}

func check26(w *kit.W, s string, pos int, tab int) {
	w.Desc(func() string { return fmt.Sprintf("%q at %d, tab size %d", clip26(s), pos, tab) })
	lc := p.GetLineAndColPosition(s, p.SourcePosition{Position: pos, Length: 3}, tab)
	w.Eval()
	if lc.LineIndex+lc.Col-1 != pos || lc.Position != pos {
		w.Fail("line index %d + column %d - 1 is not the position (%d)", lc.LineIndex, lc.Col, lc.Position)
		return
	}
	if pos > 0 && pos < len(s) && s[pos-1] == '\r' && s[pos] == '\n' {
		w.Skip()
		return
	}
	ls := lines26(s)
	k := 0
	for k+1 < len(ls) && ls[k+1].from <= pos {
		k++
	}
	l := ls[k]
	if lc.Line != k+1 || lc.LineIndex != l.from || lc.Col != pos-l.from+1 {
		w.Fail("line %d index %d column %d, want line %d index %d column %d", lc.Line, lc.LineIndex, lc.Col, k+1, l.from, pos-l.from+1)
		return
	}
	expand := func(t string) string { return strings.ReplaceAll(t, "\t", strings.Repeat(" ", tab)) }
	want, brk := "", "\n"
	if k > 0 {
		q := ls[k-1]
		want = "   | " + expand(s[q.from:q.to]) + q.brk
		if q.brk == "\r" {
			brk = "\r"
		}
	}
	want += " > | " + expand(s[l.from:l.to]) + brk + "   | " + strings.Repeat(" ", len(expand(s[l.from:pos]))) + "^^^^"
	if lc.ErrSource != want {
		w.Fail("excerpt\n   got %q\n  want %q", clip26(lc.ErrSource), clip26(want))
		return
	}
	if k > 0 {
		w.Nontrivial()
	}
	w.SeeStr(want)
}

func clip26(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func run26(r *kit.Run) {
	n1, n2 := 8, 11
	if r.Thorough {
		n1, n2 = 9, 13
	}
	tabs := []int{0, 1, 2, 4, 8}
	for _, sp := range []*kit.Strings{kit.NewStrings(n1, "a", "\t", "\r", "\n", "é"), kit.NewStrings(n2, "a", "\r", "\n")} {
		sp := sp
		r.Sub(fmt.Sprintf("texts-%d", len(sp.Alpha)), sp.Len(), func(w *kit.W, i int) {
			s := sp.At(i)
			ts := tabs
			if len(sp.Alpha) == 3 {
				ts = tabs[3:4]
			}
			for _, t := range ts {
				for pos := 0; pos <= len(s); pos++ {
					if check26(w, s, pos, t); w.Failed() {
						return
					}
				}
			}
		})
	}
	// other control characters and wide characters are ordinary
	odd := kit.NewStrings(n1-3, "\v", "\f", "\u0085", "\u2028", "\x00", "\x80", "漢", " ", "|", "\n")
	r.Sub("other-characters", odd.Len(), func(w *kit.W, i int) {
		s := odd.At(i)
		for pos := 0; pos <= len(s); pos++ {
			if check26(w, s, pos, 4); w.Failed() {
				return
			}
		}
	})
	sizes := []int{1, 2, 79, 80, 81, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 3000}
	units := []string{"a", "\t", "\n", "\r\n", "\r", "ab\n", "a\tb\r\n", "\t\t\n", "é\r"}
	r.Sub("long", len(sizes)*len(units)*len(units), func(w *kit.W, i int) {
		n := sizes[i%len(sizes)]
		s := strings.Repeat(units[i/len(sizes)%len(units)], n) + strings.Repeat(units[i/len(sizes)/len(units)], 3) + "z\ty"
		step := 1 + len(s)/40
		for pos := 0; pos <= len(s); pos += step {
			if check26(w, s, pos, tabs[pos%5]); w.Failed() {
				return
			}
		}
		for pos := len(s) - 12; pos <= len(s); pos++ {
			if pos < 0 {
				continue
			}
			if check26(w, s, pos, 3); w.Failed() {
				return
			}
		}
	})
}
