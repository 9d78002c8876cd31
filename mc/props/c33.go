package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C33", Level: "exploration",
		Rule:   "every byte string up to length two, every string over two mixed alphabets up to a length, and size sweeps, through all three front ends; a case is non-trivial when an error's place is checked",
		Bounds: "all byte strings of up to 2 (thorough 3) bytes; up to 5 (6) of 12 symbols, up to 7 (8) of {LF CR tab 1 + \"}; each symbol after, before and around 0..3000 repeated units; nesting up to 3000; each front end called twice with every text of the mixed alphabets up to 3 symbols",
		Assumptions: []string{
			"lines end with CR LF, CR or LF; a column counts bytes and may be one behind the end of its line; tabs are shown as 4 blanks",
		},
		Run: run33,
	})
}

// place33 checks that an error's message names a place in the text and shows its line.
func place33(w *kit.W, who, s string, err error) {
	const arrow = "\n --> Line "
	m := err.Error()
	p := strings.LastIndex(m, arrow)
	q := -1
	if p >= 0 {
		q = strings.IndexByte(m[p+1:], '\n')
	}
	if p < 0 || q < 0 {
		w.Fail("%s: the error names no place: %q", who, clip26(m))
		return
	}
	head, excerpt := m[p+len(arrow):p+1+q], m[p+1+q+1:]
	c := strings.Index(head, ", Col ")
	if c < 0 {
		w.Fail("%s: the error names no column: %q", who, clip26(m))
		return
	}
	line, e1 := strconv.Atoi(head[:c])
	col, e2 := strconv.Atoi(head[c+len(", Col "):])
	ls := lines26(s)
	if e1 != nil || e2 != nil || line < 1 || line > len(ls) {
		w.Fail("%s: line %d of %d: %q", who, line, len(ls), clip26(m))
		return
	}
	l := ls[line-1]
	if n := l.to - l.from + len(l.brk); col < 1 || col > n+1 || col > n && l.brk != "" {
		w.Fail("%s: line %d column %d of %d: %q", who, line, col, l.to-l.from, clip26(m))
		return
	}
	want := " > | " + strings.ReplaceAll(s[l.from:l.to], "\t", "    ")
	k := strings.Index(excerpt, want)
	if k < 0 || !strings.HasPrefix(excerpt[k+len(want):], "\n") && !strings.HasPrefix(excerpt[k+len(want):], "\r") {
		if l.brk == "\r\n" && col > l.to-l.from+1 {
			return // between CR and LF
		}
		w.Fail("%s: line %d is not shown in %q", who, line, clip26(m))
		return
	}
	w.Nontrivial()
	w.See(uint64(line)<<32 | uint64(col)<<8 | uint64(len(who)))
}

func check33(w *kit.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("text %q", clip26(s)) })
	rows, err := csv.Parse(s)
	w.Eval()
	if err != nil {
		if rows != nil {
			w.Fail("csv: rows %q and the error %v", rows, err)
		}
		place33(w, "csv", s, err)
	}
	v, err := formula.Parse(s)
	w.Eval()
	if err != nil {
		if v != 0 {
			w.Fail("formula: %d and the error %v", v, err)
		}
		place33(w, "formula", s, err)
	}
	items, err := torpn.Parse(s)
	w.Eval()
	if err != nil {
		if items != nil {
			w.Fail("torpn: %v and the error %v", items, err)
		}
		place33(w, "torpn", s, err)
	} else if len(items) == 0 {
		w.Fail("torpn: neither a result nor an error")
	}
}

func run33(r *kit.Run) {
	k := 0
	if r.Thorough {
		k = 1
	}
	r.Sub("bytes", 1+256+65536, func(w *kit.W, i int) {
		switch {
		case i == 0:
			check33(w, "")
		case i <= 256:
			check33(w, string([]byte{byte(i - 1)}))
		default:
			check33(w, string([]byte{byte((i - 257) >> 8), byte(i - 257)}))
		}
	})
	if r.Thorough {
		r.Sub("bytes-3", 1<<24, func(w *kit.W, i int) {
			check33(w, string([]byte{byte(i >> 16), byte(i >> 8), byte(i)}))
		})
	}
	mixed := kit.NewStrings(5+k, `"`, ",", "\n", "\r", "1", "+", "(", ")", "\x80", "\t", "a", "漢")
	r.Sub("mixed", mixed.Len(), func(w *kit.W, i int) {
		s := mixed.At(i)
		if check33(w, s); !w.Failed() && len(mixed.Digits(i)) <= 3 {
			check33(w, s)
		}
	})
	lines := kit.NewStrings(6+2*k, "\n", "\r", "\t", "1", "+", `"`)
	r.Sub("lines", lines.Len(), func(w *kit.W, i int) { check33(w, lines.At(i)) })
	numbers := kit.NewStrings(4+k, "9223372036854775807", "9223372036854775808", "-", "/", "0", "(", ")", "\r\n", "99999999999999999999")
	r.Sub("numbers", numbers.Len(), func(w *kit.W, i int) { check33(w, numbers.At(i)) })
	sizes := []int{0, 1, 2, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 500, 1000, 1022, 1023, 1024, 1025, 1100, 2047, 2049, 3000}
	units := []string{"\n", "\r\n", "\r", "\t", " ", "a", `"`, ",", "1,", "(", ")", "\x80", "1\n", "漢", "\x00", `""`, "a,b\n", "\u0085", `"a"` + "\n"}
	tails := []string{"", `"`, `"x"y`, "1+", "x", "\n" + `"`, "+", "(", "\r\n\t" + `"q" r`, "1)", "\n9999999999999999999999", "\xff"}
	r.Sub("sizes", len(sizes)*len(units)*len(tails), func(w *kit.W, i int) {
		check33(w, strings.Repeat(units[i/len(sizes)%len(units)], sizes[i%len(sizes)])+tails[i/len(sizes)/len(units)])
	})
	far := []int{32767, 32768, 65534, 65535, 65536, 65537, 70000}
	funits := []string{"\n", "\r\n", " ", "\t", "a", "漢"}
	ftails := []string{"+", `"`, `"x"y`, "\n\t(", "1/0"}
	r.Sub("far", len(far)*len(funits)*len(ftails), func(w *kit.W, i int) {
		check33(w, strings.Repeat(funits[i/len(far)%len(funits)], far[i%len(far)])+ftails[i/len(far)/len(funits)])
	})
	heads := []string{"1+\n2+\r\n", "((\n\n", `"a` + "\n", "h\n\n" + `"b"`, "-\n-\t"}
	r.Sub("heads", len(heads)*len(units)*len(sizes), func(w *kit.W, i int) {
		check33(w, heads[i%len(heads)]+strings.Repeat(units[i/len(heads)%len(units)], sizes[i/len(heads)/len(units)]))
	})
	nests := [][3]string{{"(", "1", ")"}, {"(", "1", ""}, {"(", "", ")"}, {"(\n", "x", ")"}, {"-(", "1", ")"}, {"(", "1/0", ")"}, {"(-", "1", "\r)"}, {"-", "", ""}, {`"`, "", `"`}, {"( ", "9223372036854775808", " )"}, {"2*(", "1", ")"}}
	depths := []int{1, 2, 3, 10, 30, 100, 300, 600, 1000, 1024, 2000, 3000}
	r.Sub("nesting", len(nests)*len(depths), func(w *kit.W, i int) {
		n, d := nests[i%len(nests)], depths[i/len(nests)]
		if strings.Contains(n[0], "*") && d > 600 || n[0] == "-(" && d > 1000 {
			return
		}
		check33(w, strings.Repeat(n[0], d)+n[1]+strings.Repeat(n[2], d))
	})
	long := []string{"+1", "-1", "*2", "/1", "*-1", "+(1)"}
	r.Sub("operators", len(long)*3*4, func(w *kit.W, i int) {
		n := []int{20, 80, 150}[i/len(long)%3]
		check33(w, "1"+strings.Repeat(long[i%len(long)], n)+[]string{"", "/0", "+", "\r\n+x"}[i/len(long)/3])
	})
}
