package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C29", Level: "exploration",
		Rule:   "every table within the bounds is written and read back; a case is non-trivial when a cell needs quoting",
		Bounds: "one cell of up to 4 (thorough 5) of 13 symbols alone, first, last and in the middle of a row and of rows; all pairs of cells of up to 2 symbols of 9; all 2x2 tables and rows of 4 with cells of up to 1 (of 12) symbols; every code point in a cell; tables of up to 4 rows of 1 to 3 cells, each empty or not; ragged tables; tables of up to 1100 rows and columns; every text of up to 5 (6) symbols parsed, written and parsed again; cells of up to 5000 characters with one of 20 special characters at every notable place",
		Assumptions: []string{
			"every row has a cell, no row is one empty cell, cells are valid UTF-8",
		},
		Run: run29,
	})
}

func check29(w *kit.W, t [][]string) {
	w.Desc(func() string { return fmt.Sprintf("table %s", clip26(fmt.Sprintf("%q", t))) })
	for _, r := range t {
		if len(r) == 0 || len(r) == 1 && r[0] == "" {
			w.Skip()
			return
		}
	}
	cp := make([][]string, len(t))
	for i := range t {
		cp[i] = append([]string{}, t[i]...)
	}
	s := csv.ToCsv(t)
	w.Eval()
	if !reflect.DeepEqual(cp, t) && len(t) > 0 {
		w.Fail("the table was modified: %q", t)
		return
	}
	got, err := csv.Parse(s)
	if err != nil || len(got) != len(t) || len(t) > 0 && !reflect.DeepEqual(got, t) {
		w.Fail("written as %q, read back as %s (%v)", clip26(s), clip26(fmt.Sprintf("%q", got)), err)
		return
	}
	if strings.Contains(s, `"`) {
		w.Nontrivial()
	}
	w.SeeStr(s)
}

func run29(r *kit.Run) {
	n := 4
	if r.Thorough {
		n = 5
	}
	one := kit.NewStrings(n, `"`, ",", " ", "\t", "\u00a0", "\n", "\v", "\f", "\r", "\u0085", "a", "漢", "\u2003")
	r.Sub("one-cell", one.Len(), func(w *kit.W, i int) {
		c := one.At(i)
		for k, t := range [][][]string{{{c}}, {{c, "x"}}, {{"x", c}}, {{"x", c, "y"}, {c}, {"z", c}}} {
			if k == 3 && len(c) > 4 && !r.Thorough {
				continue
			}
			if check29(w, t); w.Failed() {
				return
			}
		}
	})
	two := words(2, `"`, ",", " ", "\u00a0", "\n", "\r", "\u0085", "a", "é")
	r.Sub("two-cells", len(two)*len(two), func(w *kit.W, i int) {
		a, b := two[i%len(two)], two[i/len(two)]
		check29(w, [][]string{{a, b}})
		if !w.Failed() {
			check29(w, [][]string{{a}, {b}})
		}
	})
	tiny := words(1, `"`, ",", " ", "\t", "\u00a0", "\n", "\v", "\f", "\r", "\u0085", "a", `""`)
	m := len(tiny)
	r.Sub("tables", m*m*m*m, func(w *kit.W, i int) {
		a, b, c, d := tiny[i%m], tiny[i/m%m], tiny[i/m/m%m], tiny[i/m/m/m]
		if check29(w, [][]string{{a, b}, {c, d}}); w.Failed() {
			return
		}
		if check29(w, [][]string{{a, b, c, d}}); w.Failed() {
			return
		}
		check29(w, [][]string{{a}, {b, c}, {d}})
	})
	// rows of different widths, empty cells anywhere
	var rows [][]string
	for k := 1; k <= 3; k++ {
		for b := 0; b < 1<<k; b++ {
			var row []string
			for j := 0; j < k; j++ {
				row = append(row, []string{"", "a"}[b>>j&1])
			}
			if k > 1 || b > 0 {
				rows = append(rows, row)
			}
		}
	}
	q := len(rows)
	r.Sub("empty-cells", q*q*q*q, func(w *kit.W, i int) {
		t := [][]string{rows[i%q], rows[i/q%q], rows[i/q/q%q], rows[i/q/q/q]}
		for k := 1; k <= 4 && !w.Failed(); k++ {
			if k < 4 && i >= []int{0, q, q * q, q * q * q}[k] {
				continue
			}
			check29(w, t[:k])
		}
	})
	r.Sub("code-points", 0x110000, func(w *kit.W, i int) {
		if i >= 0xd800 && i <= 0xdfff || !r.Thorough && i > 0x3100 && i%16 != 2 {
			return
		}
		c := string(rune(i))
		check29(w, [][]string{{c, "a" + c, c + "a"}, {c}})
	})
	r.Sub("none", 1, func(w *kit.W, _ int) { check29(w, [][]string{}) })
	cells := []string{"a", "", `"`, ",", "\n", " ", `""`, "a\r\nb", "é", "\u0085", "\u00a0", "\t"}
	sizes := []int{2, 3, 15, 16, 17, 100, 256, 1000, 1022, 1023, 1024, 1025, 1100}
	r.Sub("long", len(cells)*len(sizes)*3, func(w *kit.W, i int) {
		c, n := cells[i%len(cells)], sizes[i/len(cells)%len(sizes)]
		switch i / len(cells) / len(sizes) {
		case 0: // long cell
			check29(w, [][]string{{strings.Repeat(c, n), "x"}})
		case 1: // wide row
			row := make([]string, n)
			for k := range row {
				row[k] = c
			}
			check29(w, [][]string{row, row})
		case 2: // many rows, ragged
			var t [][]string
			for k := 0; k < n; k++ {
				row := []string{"r"}
				for j := 0; j < k%4; j++ {
					row = append(row, c)
				}
				t = append(t, row)
			}
			check29(w, t)
		}
	})
	// a long cell with something special at every place
	special := []string{`"`, ",", "\n", "\r", "\r\n", "\u0085", "\u00a0", " ", "\t", "\v", "\f", `""`, "\u2028", "=", "\x00", "\ufeff", "'", ";", "#", "\\"}
	lens := []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096, 5000}
	r.Sub("long-special", len(special)*len(lens), func(w *kit.W, i int) {
		s, n := special[i%len(special)], lens[i/len(special)]
		for _, at := range []int{0, 1, 2, n / 2, n - 2, n - 1, n} {
			if at < 0 || at > n {
				continue
			}
			c := strings.Repeat("x", at) + s + strings.Repeat("y", n-at)
			check29(w, [][]string{{c, "z"}, {"z", c}})
			check29(w, [][]string{{c}})
			check29(w, [][]string{{c + s, s + c, ""}})
			if w.Failed() {
				return
			}
		}
	})
	huge := []int{2047, 2048, 2049, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000}
	r.Sub("huge", len(huge)*6, func(w *kit.W, i int) {
		n := huge[i%len(huge)]
		t := strings.Repeat("0123456789", n/10+1)[:n]
		switch i / len(huge) {
		case 0:
			check29(w, [][]string{{"x", t}})
		case 1:
			check29(w, [][]string{{t + ",", "y"}, {"z"}})
		case 2:
			check29(w, [][]string{{t[:n-1] + `"`, t}})
		case 3: // as many cells
			check29(w, [][]string{strings.Split(t, "")})
		case 4: // as many rows
			var rows [][]string
			for k := 0; k < n; k++ {
				rows = append(rows, []string{"r", t[k : k+1]})
			}
			check29(w, rows)
		case 5: // as many characters
			check29(w, [][]string{{strings.Repeat("漢", n)}})
		}
	})
	n = 5
	if r.Thorough {
		n = 6
	}
	texts := kit.NewStrings(n, `"`, ",", " ", "\n", "\r", "\u00a0", "a")
	r.Sub("texts", texts.Len(), func(w *kit.W, i int) {
		t, err := csv.Parse(texts.At(i))
		if err == nil {
			check29(w, t)
		}
	})
}
