// Package peg is the reference model of the combinator library: grammar terms, an
// enumeration of all terms up to a size, a reference machine that runs a term over
// immutable states, and the comparison of a run of the real parsers with the model.
//
// The machine is written from the documented PEG semantics. A state is a position, an
// immutable list of AST entries and a user tag; a step evaluates one term in one state.
// Nothing in it is shared, so rolling back is simply keeping the older value.
package peg

import (
	"fmt"
	"strings"

	p "github.com/shellyln/takenoco/base"
)

// Any marks a location the library does not define.
const Any = -1 << 40

// R is a reference AST entry. Val holds a string, a []R (for AST lists) or another plain value.
type R struct {
	Class string
	Op    p.AstOpCodeType
	Type  p.AstType
	Val   interface{}
	Pos   int
	Len   int
}

// Status of a step.
type Status int

// The statuses.
const (
	OK Status = iota
	No
	Err
)

func (s Status) String() string { return [...]string{"matched", "unmatched", "error"}[s] }

// S is a model state.
type S struct {
	Pos  int
	List []R
	Tag  int
	Qty  int // iterations of the last repetition (defined for its own result only)
	Low  int // how many of the oldest entries were left alone since the enclosing body began
}

// Push returns the state with one more entry; the old state is unaffected.
func (s S) Push(r ...R) S {
	n := make([]R, len(s.List), len(s.List)+len(r))
	copy(n, s.List)
	s.List = append(n, r...)
	return s
}

// Env carries per-execution knobs of custom leaves into the real parsers and the model.
type Env struct {
	// fault injection
	TrapAt   int // raise at the n-th visit of a trap (0: never)
	TrapKind int
	Visits   int // visits of traps, counted by the implementation
	MVisits  int // visits of traps, counted by the model
	// observations made by probes
	Seen  []string // implementation
	MSeen []string // model
	// inputs
	Objs []interface{}
}

// Op is one grammar construct.
type Op struct {
	Name  string
	Arity int
	Build func(e *Env, k []p.ParserFn) p.ParserFn
	Eval  func(m *M, n *Node, s S) (Status, S)
	// Silent constructs are transparent to debug tracing.
	Class string
	Multi bool // emits its own trace events
}

// Node is a grammar term.
type Node struct {
	Op   *Op
	Kids []*Node
	id   int
}

func (n *Node) String() string {
	if len(n.Kids) == 0 {
		return n.Op.Name
	}
	var a []string
	for _, k := range n.Kids {
		a = append(a, k.String())
	}
	return n.Op.Name + "(" + strings.Join(a, ", ") + ")"
}

// Size counts nodes.
func (n *Node) Size() int {
	c := 1
	for _, k := range n.Kids {
		c += k.Size()
	}
	return c
}

// Number assigns identities to the nodes of a term and returns how many there are.
func (n *Node) Number() int {
	c := 0
	var walk func(x *Node)
	walk = func(x *Node) {
		x.id = c
		c++
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(n)
	return c
}

// Build constructs the real parser.
func (n *Node) Build(e *Env) p.ParserFn {
	var k []p.ParserFn
	for _, c := range n.Kids {
		k = append(k, c.Build(e))
	}
	return n.Op.Build(e, k)
}

// N makes a node.
func N(op *Op, kids ...*Node) *Node { return &Node{Op: op, Kids: kids} }

// Event is a trace event of the model.
type Event struct {
	Before bool
	Node   *Node
	Class  string
	Pos    int
	N      int // entries
	St     Status
}

// M is the reference machine.
type M struct {
	Src  string
	Env  *Env
	ErrM string // message of the raised error
	ErrP int    // where it was raised

	Steps    int
	visited  map[int]struct{}
	Diverged bool
	Trace    func(ev Event)
	limit    int
}

type diverge struct{}

// Run evaluates a node.
func (m *M) Run(n *Node, s S) (Status, S) {
	m.Steps++
	if m.Steps > m.limit {
		panic(diverge{})
	}
	if m.visited != nil {
		m.visited[n.id<<12|s.Pos&0xfff] = struct{}{}
	}
	if m.Trace != nil && !n.Op.Multi {
		m.Trace(Event{Before: true, Node: n, Class: n.Op.Class, Pos: s.Pos, N: len(s.List)})
		st, o := n.Op.Eval(m, n, s)
		m.Trace(Event{Node: n, Class: n.Op.Class, Pos: o.Pos, N: len(o.List), St: st})
		return st, o
	}
	return n.Op.Eval(m, n, s)
}

// Raise makes an error outcome at a state.
func (m *M) Raise(msg string, s S) (Status, S) {
	m.ErrM, m.ErrP = msg, s.Pos
	return Err, s
}

// Diverge aborts a run that leaves the precondition.
func (m *M) Diverge() { panic(diverge{}) }

// Result of a model run.
type Result struct {
	St     Status
	S      S
	Msg    string
	ErrPos int
	Skip   bool
	States int
	Steps  int
}

// Limit is the step limit of the reference machine; a run that needs more is outside the bounds.
var Limit = 200000

// Eval runs the machine over a term.
func Eval(n *Node, src string, s S, e *Env, count bool) (r Result) {
	m := &M{Src: src, Env: e, limit: Limit}
	if count {
		m.visited = map[int]struct{}{}
	}
	return m.Go(n, s)
}

// Go runs a prepared machine.
func (m *M) Go(n *Node, s S) (r Result) {
	if m.limit == 0 {
		m.limit = Limit
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(diverge); !ok {
				panic(x)
			}
			r.Skip = true
			r.Steps = m.Steps
		}
	}()
	st, o := m.Run(n, s)
	return Result{St: st, S: o, Msg: m.ErrM, ErrPos: m.ErrP, States: len(m.visited), Steps: m.Steps}
}

// ---- comparison -------------------------------------------------------------

// DiffAst compares a real entry with a model entry.
func DiffAst(a p.Ast, r R) string {
	if a.ClassName != r.Class {
		return fmt.Sprintf("class %q, want %q", a.ClassName, r.Class)
	}
	if a.OpCode != r.Op {
		return fmt.Sprintf("opcode %d, want %d", a.OpCode, r.Op)
	}
	if a.Type != r.Type {
		return fmt.Sprintf("type %v, want %v", a.Type, r.Type)
	}
	if r.Pos != Any && a.Position != r.Pos {
		return fmt.Sprintf("position %d, want %d", a.Position, r.Pos)
	}
	if r.Len != Any && a.Length != r.Len {
		return fmt.Sprintf("length %d, want %d", a.Length, r.Len)
	}
	switch v := r.Val.(type) {
	case []R:
		l, ok := a.Value.(p.AstSlice)
		if !ok {
			return fmt.Sprintf("value %T, want AstSlice", a.Value)
		}
		if d := DiffList(l, v); d != "" {
			return "in list: " + d
		}
	case []interface{}:
		l, ok := a.Value.(p.SliceLike)
		if !ok {
			return fmt.Sprintf("value %T, want a slice", a.Value)
		}
		if l.Len() != len(v) {
			return fmt.Sprintf("slice of %d, want %d", l.Len(), len(v))
		}
		for i := range v {
			if l.Get(i) != v[i] {
				return fmt.Sprintf("slice element %d = %v, want %v", i, l.Get(i), v[i])
			}
		}
	default:
		if a.Value != r.Val {
			return fmt.Sprintf("value %#v, want %#v", a.Value, r.Val)
		}
	}
	return ""
}

// DiffList compares a list of real entries with the model's.
func DiffList(l []p.Ast, v []R) string {
	if len(l) != len(v) {
		return fmt.Sprintf("%d entries, want %d\n   got %s\n  want %s", len(l), len(v), Show(l), ShowR(v))
	}
	for i := range v {
		if d := DiffAst(l[i], v[i]); d != "" {
			return fmt.Sprintf("entry %d: %s\n   got %s\n  want %s", i, d, Show(l), ShowR(v))
		}
	}
	return ""
}

// Show prints real entries.
func Show(l []p.Ast) string {
	var b []string
	for i, a := range l {
		if i >= 12 {
			b = append(b, "...")
			break
		}
		switch v := a.Value.(type) {
		case p.AstSlice:
			b = append(b, fmt.Sprintf("[%s]@%d+%d:%v%s", Show(v), a.Position, a.Length, a.Type, a.ClassName))
		default:
			b = append(b, fmt.Sprintf("%#v@%d+%d:%v%s", a.Value, a.Position, a.Length, a.Type, a.ClassName))
		}
	}
	return strings.Join(b, " ")
}

// ShowR prints model entries.
func ShowR(l []R) string {
	var b []string
	loc := func(x int) string {
		if x == Any {
			return "?"
		}
		return fmt.Sprint(x)
	}
	for i, a := range l {
		if i >= 12 {
			b = append(b, "...")
			break
		}
		switch v := a.Val.(type) {
		case []R:
			b = append(b, fmt.Sprintf("[%s]@%s+%s:%v%s", ShowR(v), loc(a.Pos), loc(a.Len), a.Type, a.Class))
		default:
			b = append(b, fmt.Sprintf("%#v@%s+%s:%v%s", a.Val, loc(a.Pos), loc(a.Len), a.Type, a.Class))
		}
	}
	return strings.Join(b, " ")
}

// Diff compares a whole outcome. Only the status (and the absence of an error) of an
// unmatched outcome is defined; an error carries its message and its position.
func Diff(out p.ParserContext, err error, w Result) string {
	st := Status(out.MatchStatus)
	if out.MatchStatus < p.MatchStatus_Matched || out.MatchStatus > p.MatchStatus_Error {
		return fmt.Sprintf("status %d", out.MatchStatus)
	}
	if st != w.St {
		return fmt.Sprintf("%v (err=%v, pos=%d, %s), want %v (pos %d, %s) %s", st, err, out.Position, Show(out.AstStack), w.St, w.S.Pos, ShowR(w.S.List), w.Msg)
	}
	switch st {
	case OK:
		if err != nil {
			return fmt.Sprintf("matched with error %v", err)
		}
		if out.Position != w.S.Pos {
			return fmt.Sprintf("position %d, want %d", out.Position, w.S.Pos)
		}
		if d := DiffList(out.AstStack, w.S.List); d != "" {
			return d
		}
	case No:
		if err != nil {
			return fmt.Sprintf("unmatched with error %v", err)
		}
	case Err:
		if w.Msg == NilErr {
			if err != nil {
				return fmt.Sprintf("error value %v, want none", err)
			}
		} else if err == nil {
			return "error status without the error value, want " + w.Msg
		} else if err.Error() != w.Msg {
			return fmt.Sprintf("error %q, want %q", err.Error(), w.Msg)
		}
		if out.Position != w.ErrPos {
			return fmt.Sprintf("error position %d, want %d", out.Position, w.ErrPos)
		}
	}
	return ""
}

// NilErr is the message of an error status raised without an error value.
const NilErr = "\x00nil"

// ---- enumeration ------------------------------------------------------------

// Space enumerates all terms with at most Max nodes.
type Space struct {
	Ops   []*Op
	Max   int
	count []int    // by size
	byAr  [4][]*Op // ops by arity
	seq   [4][]int // seq[k][n]: number of k-tuples of terms with n nodes in total
}

// NewSpace builds the space; leaves come first so that smaller terms come first.
func NewSpace(max int, ops ...*Op) *Space {
	s := &Space{Ops: ops, Max: max}
	for _, o := range ops {
		s.byAr[o.Arity] = append(s.byAr[o.Arity], o)
	}
	s.count = make([]int, max+1)
	for k := range s.seq {
		s.seq[k] = make([]int, max+1)
	}
	s.seq[0][0] = 1
	for n := 1; n <= max; n++ {
		for k := 0; k <= 3; k++ {
			s.count[n] += len(s.byAr[k]) * s.seq[k][n-1]
		}
		s.seq[1][n] = s.count[n]
		for k := 2; k <= 3; k++ {
			for a := 1; a <= n; a++ {
				if a < n {
					s.seq[k][n] += s.count[a] * s.seq[k-1][n-a]
				}
			}
		}
	}
	return s
}

// Len is the number of terms.
func (s *Space) Len() int {
	t := 0
	for _, c := range s.count {
		t += c
	}
	return t
}

// LenSize is the number of terms of exactly n nodes.
func (s *Space) LenSize(n int) int { return s.count[n] }

// At returns term i, smallest first.
func (s *Space) At(i int) *Node {
	for n := 1; n <= s.Max; n++ {
		if i < s.count[n] {
			return s.at(n, i)
		}
		i -= s.count[n]
	}
	panic("index out of range")
}

func (s *Space) at(n, i int) *Node {
	for k := 0; k <= 3; k++ {
		c := s.seq[k][n-1]
		t := len(s.byAr[k]) * c
		if i < t {
			return &Node{Op: s.byAr[k][i/c], Kids: s.tuple(k, n-1, i%c)}
		}
		i -= t
	}
	panic("unrank")
}

func (s *Space) tuple(k, n, i int) []*Node {
	if k == 0 {
		return nil
	}
	if k == 1 {
		return []*Node{s.at(n, i)}
	}
	for a := 1; a < n; a++ {
		rest := s.seq[k-1][n-a]
		t := s.count[a] * rest
		if i < t {
			return append([]*Node{s.at(a, i/rest)}, s.tuple(k-1, n-a, i%rest)...)
		}
		i -= t
	}
	panic("unrank tuple")
}
