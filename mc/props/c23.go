package props

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C23", Level: "model_checking",
		Bounds: "every tree of up to 5 (thorough 6) nodes (values, lists, pairs, values that merely contain nodes) with every combination of up to 2 deviating callback answers (lazy, last-item mode, outbound error, outbound rewriting, return error, throw, both, return rewriting, jumps by -2..2 combined with break and continue, throws and errors combined with jumps, break and continue, on the first or second visit of the node); every assignment of 4 kinds of values to the leaves of these trees with every deviation of one node and every pair of modes; every combination of jumps of up to 4 (thorough 5) children of a last-item list; lists of up to 40000 nodes of one kind and of nine kinds in turn, and depths of up to 3000 nodes",
		Assumptions: []string{
			"jumps before the first child are undefined and not requested",
			"content of a last-item list of which no child completed normally is undefined",
			"what is returned along with an error or throw is undefined",
		},
		Run: run23,
	})
}

// n23 is a tree in the model.
type n23 struct {
	id   int
	kind int // 0 leaf, 1 pair, 2 list
	mark string
	kids []*n23
}

// op23 makes an operation code, large for some nodes, out of a node number.
func op23(id int) p.AstOpCodeType {
	return p.AstOpCodeType(id) | []p.AstOpCodeType{0, 1 << 40, 1 << 63, 1 << 31, 1<<32 | 1<<62}[id%5]
}

func id23(op p.AstOpCodeType) int { return int(op & (1<<31 - 1)) }

func (n *n23) ast() p.Ast {
	a := p.Ast{OpCode: op23(n.id), ClassName: fmt.Sprintf("n%d%s", n.id, n.mark), SourcePosition: p.SourcePosition{Position: 2 * n.id, Length: n.id}}
	switch n.kind {
	case 0:
		switch n.id % 4 {
		case 0:
			a.Type, a.Value = p.AstType_String, fmt.Sprint("leaf", n.id)
		case 1:
			a.Type = p.AstType_Nil
		case 2:
			a.Type, a.Value = p.AstType_ListOfAny, []interface{}{p.Ast{ClassName: "inner"}, 1}
		case 3:
			a.Type, a.Value = p.AstType_Int, int64(n.id)
		}
	case 1:
		a.Type, a.Value = p.AstType_AstCons, p.AstCons{Car: n.kids[0].ast(), Cdr: n.kids[1].ast()}
	case 2:
		l := make(p.AstSlice, len(n.kids), len(n.kids)+2)
		for i, k := range n.kids {
			l[i] = k.ast()
		}
		a.Type, a.Value = p.AstType_ListOfAst, l
	}
	return a
}

func (n *n23) show(sb *strings.Builder) {
	fmt.Fprintf(sb, "%d%s", n.id, n.mark)
	switch n.kind {
	case 1:
		sb.WriteByte('(')
		n.kids[0].show(sb)
		sb.WriteByte('.')
		n.kids[1].show(sb)
		sb.WriteByte(')')
	case 2:
		sb.WriteByte('[')
		for _, k := range n.kids {
			k.show(sb)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	}
}

func (n *n23) String() string {
	var sb strings.Builder
	n.show(&sb)
	return sb.String()
}

// showAst prints an Ast the way the model prints nodes, checking everything it carries.
func showAst23(sb *strings.Builder, a p.Ast) {
	id := id23(a.OpCode)
	pre := fmt.Sprintf("n%d", id)
	if !strings.HasPrefix(a.ClassName, pre) || a.Position != 2*id || a.Length != id {
		fmt.Fprintf(sb, "<damaged %#v>", a)
		return
	}
	fmt.Fprintf(sb, "%d%s", id, a.ClassName[len(pre):])
	switch v := a.Value.(type) {
	case p.AstCons:
		sb.WriteByte('(')
		showAst23(sb, v.Car)
		sb.WriteByte('.')
		showAst23(sb, v.Cdr)
		sb.WriteByte(')')
	case p.AstSlice:
		sb.WriteByte('[')
		for _, k := range v {
			showAst23(sb, k)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	default:
		w := (&n23{id: id}).ast()
		if w.Type != a.Type || fmt.Sprint(w.Value) != fmt.Sprint(v) {
			fmt.Fprintf(sb, "<damaged value %#v>", a)
		}
	}
}

func strAst23(a p.Ast) string {
	var sb strings.Builder
	showAst23(&sb, a)
	return sb.String()
}

// dev23 is one deviating answer.
type dev23 struct {
	id, visit, what int
	incr            int
}

var devNames23 = []string{"lazy", "last", "out-error", "out-rewrite", "out-replace", "back-error", "back-throw", "back-both", "back-rewrite", "jump", "break", "continue", "back-replace", "last+back-rewrite", "throw+break", "throw+continue", "error+break", "error+continue", "out-error+last"}

func (d dev23) String() string {
	s := fmt.Sprintf("node %d visit %d: %s", d.id, d.visit, devNames23[d.what])
	if d.incr != 0 {
		s += fmt.Sprintf(" %+d", d.incr)
	}
	return s
}

var (
	errOut23  = errors.New("outbound")
	errBack23 = errors.New("return")
	undef23   = errors.New("undefined") // the model leaves the defined space
)

// thrown23 are values to throw; every value but nil is a throw.
var thrown23 = []interface{}{"thrown", false, 0, "", (*int)(nil), struct{}{}, int64(0), p.Ast{}.Type, error(nil) == nil}

type ctx23 struct{ n int }

// model23 is the reference traversal.
type model23 struct {
	devs   []dev23
	visits map[int]int
	log    []string
	steps  int
}

func (m *model23) dev(id, visit int) (r []dev23) {
	for _, d := range m.devs {
		if d.id == id && (d.visit == 0 || d.visit == visit) {
			r = append(r, d)
		}
	}
	return
}

type ret23 struct {
	n      *n23
	open   bool // list content undefined
	incr   int
	op     p.TraverseOpcode
	thrown interface{}
	err    error
}

// there and back are the scripted answers, shared by the model and the callbacks.
func there23(ds []dev23) (mark string, replace bool, mode p.WayThereMode, err error) {
	for _, d := range ds {
		switch d.what {
		case 0:
			mode = p.WayThereMode_Lazy
		case 1, 13:
			mode = p.WayThereMode_Last
		case 2:
			err = errOut23
		case 18:
			err, mode = errOut23, p.WayThereMode_Last
		case 3:
			mark += "o"
		case 4:
			replace = true
		}
	}
	return
}

func back23(ds []dev23) (mark string, replace bool, incr int, op p.TraverseOpcode, thrown interface{}, err error) {
	for _, d := range ds {
		incr += d.incr
		switch d.what {
		case 5:
			err = errBack23
		case 6:
			thrown = thrown23[(d.id+3*d.visit)%len(thrown23)]
		case 7:
			err, thrown = errBack23, 17
		case 8, 13:
			mark += "b"
		case 10:
			op = p.TraverseOpcode_Break
		case 11:
			op = p.TraverseOpcode_Continue
		case 12:
			replace = true
		case 14:
			thrown, op = thrown23[(d.id+3*d.visit+1)%len(thrown23)], p.TraverseOpcode_Break
		case 15:
			thrown, op = thrown23[(d.id+3*d.visit+2)%len(thrown23)], p.TraverseOpcode_Continue
		case 16:
			err, op = errBack23, p.TraverseOpcode_Break
		case 17:
			err, op = errBack23, p.TraverseOpcode_Continue
		}
	}
	return
}

// replacement23 is what a replacing callback puts in place of a node.
func replacement23(id int) *n23 {
	if id%2 == 0 {
		return &n23{id: id, kind: 2, mark: "r", kids: []*n23{{id: 80 + id}, {id: 90 + id, kind: 2}}}
	}
	return &n23{id: id, kind: 1, mark: "r", kids: []*n23{{id: 60 + id}, {id: 70 + id}}}
}

func (m *model23) run(n *n23) (r ret23) {
	m.steps++
	if m.steps > 4000 {
		r.err = undef23
		return
	}
	m.visits[n.id]++
	ds := m.dev(n.id, m.visits[n.id])
	m.log = append(m.log, "> "+n.String())
	mark, rep, mode, err := there23(ds)
	if err != nil {
		r.n, r.err = n, err
		return
	}
	if rep {
		n = replacement23(n.id)
	}
	n = &n23{id: n.id, kind: n.kind, mark: n.mark + mark, kids: n.kids}
	if mode != p.WayThereMode_Lazy && n.kind != 0 {
		var kids []*n23
		open := false
		if n.kind == 2 && mode == p.WayThereMode_Last {
			for i := 0; i < len(n.kids); {
				k := m.run(n.kids[i])
				if k.err == undef23 {
					return k
				}
				if k.thrown != nil || k.err != nil {
					m.log = append(m.log, fmt.Sprintf("! %d child %d %v %v", n.id, n.kids[i].id, k.thrown, k.err))
					r.n, r.thrown, r.err = n, k.thrown, k.err
					return
				}
				switch k.op {
				case p.TraverseOpcode_Nop:
					kids = []*n23{k.n}
					i++
				case p.TraverseOpcode_Break:
					i = len(n.kids)
				case p.TraverseOpcode_Continue:
					i = 0
				}
				if i += k.incr; i < 0 {
					r.err = undef23
					return
				}
			}
			open = len(kids) == 0 && len(n.kids) > 0
		} else {
			for _, c := range n.kids {
				k := m.run(c)
				if k.err == undef23 {
					return k
				}
				if k.thrown != nil || k.err != nil {
					m.log = append(m.log, fmt.Sprintf("! %d child %d %v %v", n.id, c.id, k.thrown, k.err))
					r.n, r.thrown, r.err = n, k.thrown, k.err
					return
				}
				kids = append(kids, k.n)
			}
		}
		if open {
			r.err = undef23
			return
		}
		n = &n23{id: n.id, kind: n.kind, mark: n.mark, kids: kids}
	}
	m.log = append(m.log, "< "+n.String())
	mark, rep, r.incr, r.op, r.thrown, r.err = back23(ds)
	if rep {
		n = replacement23(n.id)
	}
	r.n = &n23{id: n.id, kind: n.kind, mark: n.mark + mark, kids: n.kids}
	return
}

func check23(w *kit.W, t *n23, devs []dev23) {
	w.Desc(func() string { return fmt.Sprintf("tree %v with %v", t, devs) })
	m := &model23{devs: devs, visits: map[int]int{}}
	want := m.run(t)
	w.States(len(m.log))
	w.Transitions(m.steps)
	if want.err == undef23 {
		w.Skip()
		return
	}
	root := t.ast()
	var log []string
	visits := map[int]int{}
	cur := map[int][][]dev23{} // answers of the visits under way, per node
	ctx := &ctx23{}
	bad := ""
	out, incr, op, thrown, err := root.Traverse(func(c interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) {
		if c != interface{}(ctx) {
			bad = "another user context"
		}
		id := id23(a.OpCode)
		visits[id]++
		ds := m.dev(id, visits[id])
		log = append(log, "> "+strAst23(a))
		mark, rep, mode, err := there23(ds)
		if err != nil {
			return a, mode, err
		}
		cur[id] = append(cur[id], ds)
		if rep {
			a = replacement23(id).ast()
		}
		a.ClassName += mark
		return a, mode, nil
	}, func(c interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
		if c != interface{}(ctx) {
			bad = "another user context"
		}
		id := id23(a.OpCode)
		log = append(log, "< "+strAst23(a))
		var ds []dev23
		if s := cur[id]; len(s) > 0 {
			ds, cur[id] = s[len(s)-1], s[:len(s)-1]
		} else {
			bad = fmt.Sprintf("return callback for node %d which was not entered", id)
		}
		mark, rep, incr, op, thrown, err := back23(ds)
		if rep {
			a = replacement23(id).ast()
		}
		a.ClassName += mark
		return a, int16(incr), op, thrown, err
	}, func(c interface{}, a, child p.Ast, thrown interface{}, err error) {
		if c != interface{}(ctx) {
			bad = "another user context"
		}
		log = append(log, fmt.Sprintf("! %d child %d %v %v", id23(a.OpCode), id23(child.OpCode), thrown, err))
	}, ctx)
	w.Eval()
	if got := strAst23(root); got != t.String() {
		w.Fail("the given tree was modified: %s", got)
		return
	}
	if strings.Join(log, "; ") != strings.Join(m.log, "; ") {
		w.Fail("callbacks\n   got %s\n  want %s", strings.Join(log, "; "), strings.Join(m.log, "; "))
		return
	}
	if bad != "" {
		w.Fail("%s", bad)
		return
	}
	if err != want.err || thrown != want.thrown {
		w.Fail("returned %v %v, want %v %v", thrown, err, want.thrown, want.err)
		return
	}
	if err == nil && thrown == nil {
		if got := strAst23(out); got != want.n.String() {
			w.Fail("result %s, want %s", got, want.n)
			return
		}
		if int(incr) != want.incr || op != want.op {
			w.Fail("returned position %d %d, want %d %d", incr, op, want.incr, want.op)
			return
		}
	}
	if len(devs) > 0 {
		w.Nontrivial()
	}
	w.SeeStr(strings.Join(log, ";"))
}

// trees23 lists all trees of exactly n nodes (numbered later).
func trees23(n int, memo map[int][]*n23) []*n23 {
	if r, ok := memo[n]; ok {
		return r
	}
	var out []*n23
	if n == 1 {
		out = append(out, &n23{}, &n23{kind: 2})
	} else {
		for a := 1; a < n-1; a++ {
			for _, x := range trees23(a, memo) {
				for _, y := range trees23(n-1-a, memo) {
					out = append(out, &n23{kind: 1, kids: []*n23{x, y}})
				}
			}
		}
		var seqs func(left int, pre []*n23)
		seqs = func(left int, pre []*n23) {
			if left == 0 {
				out = append(out, &n23{kind: 2, kids: append([]*n23{}, pre...)})
				return
			}
			for a := 1; a <= left; a++ {
				for _, x := range trees23(a, memo) {
					seqs(left-a, append(pre, x))
				}
			}
		}
		seqs(n-1, nil)
	}
	memo[n] = out
	return out
}

func number23(t *n23, next *int) *n23 {
	c := &n23{id: *next, kind: t.kind}
	*next++
	for _, k := range t.kids {
		c.kids = append(c.kids, number23(k, next))
	}
	return c
}

func size23(t *n23) int {
	n := 1
	for _, k := range t.kids {
		n += size23(k)
	}
	return n
}

func run23(r *kit.Run) {
	max := 5
	if r.Thorough {
		max = 6
	}
	memo := map[int][]*n23{}
	var trees []*n23
	for n := 1; n <= max; n++ {
		for _, t := range trees23(n, memo) {
			id := 0
			trees = append(trees, number23(t, &id))
		}
	}
	devsOf := func(n int) (ds []dev23) {
		for id := 0; id < n; id++ {
			for what := range devNames23 {
				switch what {
				case 9, 10, 11:
					for v := 1; v <= 2; v++ {
						for incr := -2; incr <= 2; incr++ {
							if what == 9 && incr == 0 || what == 11 && incr < 0 {
								continue
							}
							ds = append(ds, dev23{id, v, what, incr})
						}
					}
				case 14, 15, 16, 17:
					ds = append(ds, dev23{id, 1, what, 0}, dev23{id, 2, what, 2}, dev23{id, 1, what, -1})
				default:
					ds = append(ds, dev23{id, 1, what, 0})
					if what == 1 || what == 5 || what == 6 || what == 2 {
						ds = append(ds, dev23{id, 0, what, 0}, dev23{id, 2, what, 0})
					}
				}
			}
		}
		return
	}
	r.Sub("trees", len(trees), func(w *kit.W, i int) {
		t := trees[i]
		n := size23(t)
		ds := devsOf(n)
		check23(w, t, nil)
		for k := range ds {
			if check23(w, t, ds[k:k+1]); w.Failed() {
				return
			}
			if n == max && !r.Thorough && k%3 != i%3 {
				continue // the largest trees get a third of the pairs
			}
			for j := k + 1; j < len(ds); j++ {
				if check23(w, t, []dev23{ds[k], ds[j]}); w.Failed() {
					return
				}
			}
		}
	})
	// every kind of value in every leaf
	var leaves func(t *n23, k *int, f func(l *n23, k int))
	leaves = func(t *n23, k *int, f func(l *n23, k int)) {
		if t.kind == 0 {
			f(t, *k)
			*k++
		}
		for _, c := range t.kids {
			leaves(c, k, f)
		}
	}
	r.Sub("leaf-kinds", len(trees), func(w *kit.W, i int) {
		id, nl := 0, 0
		t := number23(trees[i], &id)
		leaves(t, &nl, func(*n23, int) {})
		total := 1
		for k := 0; k < nl; k++ {
			total *= 4
		}
		ids := make([]int, 0, size23(t))
		for code := 0; code < total; code++ {
			k, c := 0, code
			leaves(t, &k, func(l *n23, k int) {
				l.id = 200 + 4*k + c%4
				c /= 4
			})
			ids = ids[:0]
			var walk func(n *n23)
			walk = func(n *n23) {
				ids = append(ids, n.id)
				for _, c := range n.kids {
					walk(c)
				}
			}
			walk(t)
			check23(w, t, nil)
			for _, id := range ids {
				for _, what := range []int{0, 1, 3, 8, 9, 13} {
					incr := 0
					if what == 9 {
						incr = 1
					}
					check23(w, t, []dev23{{id, 1, what, incr}})
					for _, id2 := range ids {
						if id2 != id && (what == 0 || what == 1) {
							check23(w, t, []dev23{{id, 0, what, 0}, {id2, 0, 1, 0}})
						}
					}
					if w.Failed() {
						return
					}
				}
			}
		}
	})
	// Last-item lists with jumps: inside the root of each shape.
	last := 4
	if r.Thorough {
		last = 5
	}
	var jumps []dev23
	for _, what := range []int{9, 10, 11, 14, 15, 16} {
		if what > 11 {
			jumps = append(jumps, dev23{0, 1, what, 0})
			continue
		}
		for incr := -3; incr <= 3; incr++ {
			jumps = append(jumps, dev23{0, 1, what, incr})
		}
	}
	nj := len(jumps)
	for size := 1; size <= last; size++ {
		size := size
		total := 1
		for k := 0; k < size; k++ {
			total *= nj
		}
		r.Sub(fmt.Sprintf("jumps-%d", size), total, func(w *kit.W, i int) {
			list := &n23{id: 0, kind: 2}
			devs := []dev23{{0, 0, 1, 0}}
			for k := 0; k < size; k++ {
				list.kids = append(list.kids, &n23{id: k + 1})
				d := jumps[i%nj]
				d.id = k + 1
				i /= nj
				devs = append(devs, d)
			}
			check23(w, list, devs)
			// nested: the list is a child of another last-item list whose own position must not be affected
			outer := &n23{id: 50, kind: 2, kids: []*n23{{id: 51}, list, {id: 52}}}
			check23(w, outer, append(devs, dev23{50, 0, 1, 0}))
		})
	}
	// children of a wide list, of one kind or all kinds in turn
	kinds := []func(k int) p.Ast{
		func(k int) p.Ast { return p.Ast{Type: p.AstType_Int, Value: int64(k)} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_Nil} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_ListOfAst, Value: p.AstSlice{}} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_String, Value: fmt.Sprint(k)} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_ListOfAny, Value: []interface{}{k}} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_Any, Value: p.AstSlice{{OpCode: 5}}} },
		func(k int) p.Ast { return p.Ast{} },
		func(k int) p.Ast { return p.Ast{Type: p.AstType_Bool, Value: k%2 == 0} },
		func(k int) p.Ast {
			return p.Ast{Type: p.AstType_Float, Value: 0.5, SourcePosition: p.SourcePosition{Position: -k, Length: k}}
		},
	}
	r.Sub("wide", 12*(len(kinds)+1), func(w *kit.W, i int) {
		kind := i / 12
		i %= 12
		n := []int{1000, 1023, 1024, 1025, 33000, 40000}[i%6]
		if kind > 0 && kind < len(kinds) && i%6 >= 4 {
			w.Skip()
			return
		}
		l := make(p.AstSlice, n)
		for k := range l {
			if kind == len(kinds) {
				l[k] = kinds[(k+k/256)%len(kinds)](k)
			} else {
				l[k] = kinds[kind](k)
			}
			l[k].OpCode = p.AstOpCodeType(k)
		}
		w.Descf("list of %d children of kind %d, last-item mode %v", n, kind, i >= 6)
		var order []int
		first, back := true, false
		out, _, _, _, err := p.Ast{OpCode: 1 << 40, Type: p.AstType_ListOfAst, Value: l}.Traverse(func(_ interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) {
			if a.OpCode == 1<<40 && i >= 6 {
				return a, p.WayThereMode_Last, nil
			}
			return a, p.WayThereMode_None, nil
		}, func(_ interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
			if a.OpCode == 1<<40 {
				return a, 0, 0, nil, nil
			}
			k := int(a.OpCode)
			order = append(order, k)
			a.ClassName = fmt.Sprint("done", k)
			if i >= 6 && k == 3 && first {
				first = false
				return a, 32767, 0, nil, nil // the longest jump
			}
			if i >= 6 && k == 32800 && !back {
				back = true
				return a, -32768, 0, nil, nil // the longest jump back
			}
			return a, 0, 0, nil, nil
		}, func(interface{}, p.Ast, p.Ast, interface{}, error) { w.Fail("child error") }, nil)
		w.Eval()
		var want []int
		jumps := 0
		for k := 0; k < n; {
			want = append(want, k)
			switch {
			case i >= 6 && k == 3 && jumps == 0:
				k += 32768
				jumps++
			case i >= 6 && k == 32800 && jumps == 1:
				k += -32767
				jumps++
			default:
				k++
			}
		}
		w.States(len(want))
		w.Nontrivial()
		if err != nil || fmt.Sprint(order) != fmt.Sprint(want) {
			w.Fail("order of %d visits is wrong (%v)", len(order), err)
			return
		}
		res := out.Value.(p.AstSlice)
		if i >= 6 {
			if len(res) != 1 || res[0].ClassName != fmt.Sprint("done", want[len(want)-1]) {
				w.Fail("result %s", dump(res))
			}
			return
		}
		for k := range l {
			if len(res) != n || res[k].ClassName != fmt.Sprint("done", k) || l[k].ClassName != "" {
				w.Fail("child %d: result %s, original %s", k, res[k].ClassName, l[k].ClassName)
				return
			}
		}
	})
	r.Sub("deep", 8, func(w *kit.W, i int) {
		depth := []int{100, 1000, 1024, 3000}[i%4]
		t := &n23{id: 0}
		for k := 1; k <= depth; k++ {
			if k%3 == 0 {
				t = &n23{id: k, kind: 1, kids: []*n23{t, {id: 100000 + k}}}
			} else {
				t = &n23{id: k, kind: 2, kids: []*n23{t}}
			}
		}
		w.Descf("depth %d, failing inside: %v", depth, i >= 4)
		var open []int
		fails := 0
		_, _, _, thrown, err := t.ast().Traverse(func(_ interface{}, a p.Ast) (p.Ast, p.WayThereMode, error) {
			if id23(a.OpCode) < 100000 {
				open = append(open, id23(a.OpCode))
			}
			return a, p.WayThereMode(id23(a.OpCode) % 2 * 2), nil
		}, func(_ interface{}, a p.Ast) (p.Ast, int16, p.TraverseOpcode, interface{}, error) {
			if id23(a.OpCode) < 100000 {
				if open[len(open)-1] != id23(a.OpCode) {
					w.Fail("returned from %d inside %d", a.OpCode, open[len(open)-1])
				}
				open = open[:len(open)-1]
				if id23(a.OpCode) == 0 && i >= 4 {
					return a, 0, 0, "T", nil
				}
			}
			return a, 0, 0, nil, nil
		}, func(_ interface{}, a, _ p.Ast, thrown interface{}, err error) {
			if open[len(open)-1] != id23(a.OpCode) || thrown != "T" || err != nil {
				w.Fail("child error of %d inside %d: %v %v", a.OpCode, open[len(open)-1], thrown, err)
			}
			open = open[:len(open)-1]
			fails++
		}, nil)
		w.Eval()
		w.States(depth)
		w.Transitions(2 * depth)
		if len(open) != 0 || err != nil || (i >= 4) != (thrown == "T") || (i >= 4 && fails != depth) {
			w.Fail("%d nodes left open, thrown %v, error %v, %d child errors", len(open), thrown, err, fails)
		}
	})
}
