package props

import (
	"fmt"
	"reflect"

	"github.com/shellyln/takenoco/_examples/torpn"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C32", Level: "exploration",
		Rule:   "the texts of C31; the output is compared with the postfix order of the reference tree, and the reference postfix, evaluated, with the value of the tree; a case is non-trivial when the text is an expression with an operator",
		Bounds: bounds31,
		Assumptions: []string{
			"each minus in the output has its own operand count (the output does not show it): it is read off the tree",
			"a minus before a single number, parenthesised or not, is folded into it",
			"whether a minus directly before 9223372036854775808 is part of the number is not specified",
		},
		Run: run32,
	})
}

// item32 is one element of the postfix form; args is an operator's operand count.
type item32 struct {
	v    interface{}
	args int
}

func (e *expr31) postfix32(out []item32) []item32 {
	switch e.op {
	case 'n':
		return append(out, item32{e.num, 0})
	case '~':
		n := len(out)
		out = e.a.postfix32(out)
		if len(out) == n+1 {
			out[n].v = -out[n].v.(int64)
			return out
		}
		return append(out, item32{"-", 1})
	}
	out = e.a.postfix32(out)
	out = e.b.postfix32(out)
	return append(out, item32{string(e.op), 2})
}

// run32p evaluates a postfix form.
func run32p(items []item32) (v int64, ok bool) {
	var st []int64
	for _, it := range items {
		if it.args == 0 {
			st = append(st, it.v.(int64))
			continue
		}
		n := len(st)
		if n < it.args {
			panic("reference postfix is malformed")
		}
		b := st[n-1]
		if it.args == 1 {
			st[n-1] = -b
			continue
		}
		e := &expr31{op: it.v.(string)[0], a: &expr31{op: 'n', num: st[n-2]}, b: &expr31{op: 'n', num: b}}
		if st[n-2], ok = e.eval31(); !ok {
			return 0, false
		}
		st = st[:n-1]
	}
	if len(st) != 1 {
		panic("reference postfix is malformed")
	}
	return st[0], true
}

func check32(w *kit.W, s string) {
	w.Desc(func() string { return fmt.Sprintf("torpn %q", clip26(s)) })
	e, unsure := parse31(s)
	if unsure {
		w.Skip()
		return
	}
	got, err := torpn.Parse(s)
	w.Eval()
	if e == nil {
		if err == nil || got != nil {
			w.Fail("accepted as %v (%v)", got, err)
		}
		w.SeeStr("rejected")
		return
	}
	items := e.postfix32(nil)
	var want []interface{}
	for _, it := range items {
		want = append(want, it.v)
	}
	if err != nil || !reflect.DeepEqual(got, want) {
		w.Fail("\n   got %s (%v)\n  want %s", clip26(fmt.Sprintf("%#v", got)), err, clip26(fmt.Sprintf("%#v", want)))
		return
	}
	if v, ok := e.eval31(); true {
		if pv, pok := run32p(items); pv != v || pok != ok {
			panic("the reference postfix has another value than the tree")
		}
	}
	if e.op != 'n' {
		w.Nontrivial()
	}
	w.SeeStr(fmt.Sprint(want))
}

func run32(r *kit.Run) { texts31(r, check32) }
