package props

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"

	"verif/mc/kit"
)

//go:embed run34.js
var run34js []byte

func init() {
	kit.Register(&kit.Check{
		ID: "C34", Level: "exploration",
		Rule:   "the module is built and run in node; every text is passed to both functions, all in sequence on a few instances, and every short history of calls (valid, erroneous, without argument) runs on an instance of its own; results are compared with the native parsers; a case is non-trivial when a text is accepted by a native parser or follows an error",
		Bounds: "texts of up to 4 (thorough 5) of 9 CSV symbols and 4 (5) of 9 formula symbols, every 16-bit code point, tables up to 1100 rows, numbers around every power of two, tables of six rows of up to six cells, every printable character before, in and after sums of up to 80 characters, control and other unusual characters at every notable place; all histories of up to 2 (3) of 15 calls (with no, one and several arguments) on fresh instances, all of 3 on shared ones",
		Assumptions: []string{
			"texts are well-formed (JavaScript strings with lone surrogates are not texts)",
			"Go's own conversion of a string for JavaScript (wasm_exec.js) drops a byte order mark at the start of a cell: such a cell is compared without it",
			"a number is the JavaScript number nearest to the 64-bit result",
		},
		Run: run34,
	})
}

type call34 struct {
	Func string // "csv", "formula" or "tiny"
	Text string
	None bool // no argument
	More bool // further arguments, as Array.map passes them
}

type history34 struct {
	Fresh bool
	Calls []call34
}

func (h history34) MarshalJSON() ([]byte, error) {
	var l []interface{}
	if h.Fresh {
		l = append(l, "fresh")
	}
	for _, c := range h.Calls {
		if c.More {
			l = append(l, []string{c.Func, c.Text, "more"})
		} else if c.None {
			l = append(l, []string{c.Func})
		} else {
			l = append(l, []string{c.Func, c.Text})
		}
	}
	return json.Marshal(l)
}

type result34 struct {
	T string
	R [][]string
	N string
}

// node34 runs histories through the module in several node processes.
func node34(hs []history34, dir, wasm, exe string) (out [][]result34, err error) {
	procs := runtime.GOMAXPROCS(0)
	out = make([][]result34, len(hs))
	var wg sync.WaitGroup
	var mu sync.Mutex
	for p := 0; p < procs; p++ {
		lo, hi := len(hs)*p/procs, len(hs)*(p+1)/procs
		if lo == hi {
			continue
		}
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			in := filepath.Join(dir, fmt.Sprintf("in%d.json", p))
			res := filepath.Join(dir, fmt.Sprintf("out%d.json", p))
			var buf bytes.Buffer
			enc := json.NewEncoder(&buf)
			enc.SetEscapeHTML(false)
			e := enc.Encode(hs[lo:hi])
			if e == nil {
				e = os.WriteFile(in, buf.Bytes(), 0o644)
			}
			if e == nil {
				ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, "node", "--stack-size=4000", filepath.Join(dir, "run34.js"), exe, wasm, in, res)
				var b []byte
				if b, e = cmd.CombinedOutput(); e != nil {
					if len(b) > 2000 {
						b = b[len(b)-2000:]
					}
					e = fmt.Errorf("node: %v: %s", e, b)
				}
			}
			var b []byte
			if e == nil {
				b, e = os.ReadFile(res)
			}
			if e == nil {
				var part [][]result34
				if e = json.Unmarshal(b, &part); e == nil {
					copy(out[lo:hi], part)
				}
			}
			if e != nil {
				mu.Lock()
				err = e
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out, err
}

func check34(w *kit.W, h history34, res []result34) {
	w.Desc(func() string { return fmt.Sprintf("calls %s", clip26(fmt.Sprintf("%+v", h))) })
	if len(res) != len(h.Calls) {
		w.Fail("%d results for %d calls", len(res), len(h.Calls))
		return
	}
	interesting := false
	for k, c := range h.Calls {
		r := res[k]
		w.Eval()
		if c.Func != "formula" {
			want, err := csv.Parse(c.Text)
			if err != nil {
				want = nil
			}
			// Go's own conversion of text for JavaScript drops a byte order mark at its start
			for _, row := range want {
				for j := range row {
					row[j] = strings.TrimPrefix(row[j], "\ufeff")
				}
			}
			if r.T != "rows" || len(r.R) != len(want) || len(want) > 0 && !reflect.DeepEqual(r.R, want) {
				w.Fail("call %d (%s): %s %s, the native parser gives %s", k, clip26(fmt.Sprintf("%+v", c)), r.T, clip26(fmt.Sprintf("%q", r.R)), clip26(fmt.Sprintf("%q", want)))
				return
			}
			interesting = interesting || len(want) > 0
			w.SeeStr(fmt.Sprint(want))
			continue
		}
		want, err := formula.Parse(c.Text)
		if err != nil {
			want = 0
		}
		got, perr := strconv.ParseFloat(r.N, 64)
		if r.T != "number" || perr != nil || got != float64(want) {
			w.Fail("call %d (%+v): %s %s, the native parser gives %d", k, c, r.T, r.N, want)
			return
		}
		interesting = interesting || want != 0 || k > 0
		w.SeeStr(r.N)
	}
	if interesting {
		w.Nontrivial()
	}
}

const tiny34 = `//go:build wasm

package main

import "syscall/js"

func init() {
	js.Global().Set("parseCsvTiny", js.FuncOf(func(_ js.Value, args []js.Value) interface{} {
		rows := []interface{}{}
		for _, r := range parseCsvWithTinyGo(args[0].String()) {
			cells := []interface{}{}
			for _, c := range r {
				cells = append(cells, c)
			}
			rows = append(rows, cells)
		}
		return rows
	}))
}
`

func run34(r *kit.Run) {
	dir := os.Getenv("MC_SCRATCH")
	if dir == "" {
		d, err := os.MkdirTemp("", "c34")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.RemoveAll(d)
		dir = d
	}
	dir = filepath.Join(dir, "wasm")
	os.MkdirAll(dir, 0o755)
	wasm := filepath.Join(dir, "m.wasm")
	build := func(flags ...string) ([]byte, error) {
		c := exec.Command("go", append(append([]string{"build", "-tags", "wasm", "-o", wasm}, flags...), "github.com/shellyln/takenoco/wasm")...)
		c.Dir = filepath.Join(r.OutDir, "mc")
		c.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
		return c.CombinedOutput()
	}
	// with a file that lets JavaScript call the function exported for TinyGo as well
	tiny, overlay := filepath.Join(dir, "tiny34.go"), filepath.Join(dir, "overlay.json")
	list := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/shellyln/takenoco")
	list.Dir = filepath.Join(r.OutDir, "mc")
	pkg, lerr := list.Output()
	hasTiny := false
	if lerr == nil && os.WriteFile(tiny, []byte(tiny34), 0o644) == nil {
		o, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(strings.TrimSpace(string(pkg)), "wasm", "verif_tiny34.go"): tiny}})
		if os.WriteFile(overlay, o, 0o644) == nil {
			_, err := build("-overlay", overlay)
			hasTiny = err == nil
		}
	}
	if !hasTiny {
		if b, err := build(); err != nil {
			fmt.Fprintf(os.Stderr, "building the module: %v\n%s", err, b)
			os.Exit(2)
		}
	}
	env, err := exec.Command("go", "env", "GOROOT").Output()
	exe := filepath.Join(strings.TrimSpace(string(env)), "lib", "wasm", "wasm_exec.js")
	if err == nil {
		_, err = os.Stat(exe)
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "run34.js"), run34js, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	n, depth := 4, 2
	if r.Thorough {
		n, depth = 5, 3
	}
	batch := func(name string, hs []history34) {
		res, err := node34(hs, dir, wasm, exe)
		if err != nil {
			r.Violate(name, "a sequence of calls", fmt.Sprintf("the module does not get through it: %v", err))
		}
		r.Sub(name, len(hs), func(w *kit.W, i int) { check34(w, hs[i], res[i]) })
	}
	both := func(texts []string) (hs []history34) {
		for i, t := range texts {
			h := history34{Calls: []call34{{"csv", t, false, false}, {"formula", t, false, false}}}
			if i%64 == 7 {
				h.Calls = append(h.Calls, call34{"csv", "", true, false}, call34{"formula", "", true, false})
			}
			if i%16 == 3 {
				h.Calls = append(h.Calls, call34{"csv", t, false, true}, call34{"formula", t, false, true})
			}
			if hasTiny && i%4 == 1 {
				h.Calls = append(h.Calls, call34{"tiny", t, false, false})
			}
			hs = append(hs, h)
		}
		return hs
	}
	batch("csv-texts", both(kit.NewStrings(n, `"`, ",", " ", "\n", "\r", "a", "漢", "\u00a0", "1").All()))
	batch("formula-texts", both(kit.NewStrings(n, "1", "20", "+", "-", "*", "/", "(", ")", " ").All()))
	var cps []string
	for c := 0; c < 0x10000; c++ {
		if c >= 0xd800 && c < 0xe000 || c > 0x3100 && c%32 != 1 && !r.Thorough {
			continue
		}
		cps = append(cps, string(rune(c))+","+`"`+string(rune(c))+`"`)
	}
	cps = append(cps, "😀", "a\U0010ffff", "\U0001F600,\"\U0001F600\"\"\"\n\U00020000")
	batch("code-points", both(cps))
	var big []string
	for k := 0; k < 65; k++ {
		for d := -1; d <= 1; d++ {
			z := fmt.Sprintf("%d", uint64(1)<<uint(k%64)+uint64(d))
			big = append(big, z, "-"+z, z+"*"+z, "0-"+z+"-1", z+"/3", "1/("+z+"-"+z+")")
		}
	}
	for _, m := range []int{1, 2, 10, 100, 255, 256, 1000, 1023, 1024, 1025, 1100} {
		for _, u := range []string{"a,b\n", "\"x,\"\"y\"\n", ",", "\n", "(", "漢", "1", "\"", " "} {
			big = append(big, strings.Repeat(u, m), strings.Repeat(u, m)+"z", "1"+strings.Repeat("+1", m/20)+strings.Repeat(u, m))
		}
		if m <= 256 {
			big = append(big, strings.Repeat("(", m)+"7"+strings.Repeat(")", m))
		}
	}
	batch("large", both(big))
	// ragged tables, and one character before, in and after texts of every length
	var shapes []string
	for a := 0; a < 6*6*6; a++ {
		var rows []string
		for _, k := range []int{a % 6, a / 6 % 6, a / 36} {
			rows = append(rows, strings.Join(strings.Split("pqrstu"[:k+1], ""), ","), strings.Repeat("\"x\",", k))
		}
		shapes = append(shapes, strings.Join(rows, "\n"))
	}
	batch("shapes", both(shapes))
	var one []string
	for k := 1; k <= 80; k++ {
		for c := byte(' '); c < 0x7f; c++ {
			if k > 4 && !r.Thorough && k%8 != 1 && k%8 != 7 {
				continue
			}
			t := "1" + strings.Repeat("+1", k/2) + strings.Repeat(" ", 1-k%2)
			s := string([]byte{c})
			one = append(one, t+s, s+t, t[:len(t)/2]+s+t[len(t)/2:])
		}
	}
	var strange []string
	for c := rune(0); c <= 0xa0; c++ {
		if c >= ' ' && c < 0x7f {
			continue
		}
		strange = append(strange, string(c))
	}
	strange = append(strange, "\ufeff", "\u200b", "\u2028", "\u202e", "\u3000", "\ufffd", "\uffff", "\U0001f600", "\U0010ffff")
	for _, s := range strange {
		one = append(one, s, s+"1", "1"+s, "1"+s+"+2", "1+"+s+"2", "ab"+s+",c\nd,e", "ab,"+s+"c\n"+s+"d,e", "x,\"a"+s+"b\"\n\""+s+"\"", s+s+s, "1,2\n3,4"+s)
	}
	batch("one-character", both(one))
	ops := []call34{
		{"csv", "a,b\nc,\"d\"\"\"", false, false}, {"csv", "\"", false, false}, {"csv", "", false, false}, {"csv", "", true, false}, {"csv", "x", false, false},
		{"formula", "1+2*3", false, false}, {"formula", "1+", false, false}, {"formula", "1/0", false, false}, {"formula", "", true, false}, {"formula", "-(4)", false, false}, {"formula", "99999999999999999999", false, false}, {"csv", "p\n\"q,\",r", false, true}, {"formula", "7-5", false, true},
	}
	if hasTiny {
		ops = append(ops, call34{"tiny", "m,n\n,o", false, false}, call34{"tiny", "\"", false, false})
	}
	seq := func(depth int, fresh bool) (hs []history34) {
		names := make([]string, len(ops))
		sp := kit.NewStrings(depth, names...)
		for i := 1; i < sp.Len(); i++ {
			h := history34{Fresh: fresh}
			for _, d := range sp.Digits(i) {
				h.Calls = append(h.Calls, ops[d])
			}
			hs = append(hs, h)
		}
		return hs
	}
	batch("histories-fresh", seq(depth, true))
	batch("histories", seq(3, false))
}
