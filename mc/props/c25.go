package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	p "github.com/shellyln/takenoco/base"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C25", Level: "model_checking",
		Bounds: "every sequence of up to 4 (thorough 5; maps 2 and 3) writes, through the untyped and the typed setter, with up to 4 (5) values each of 24 element types: on three neighbouring array elements, slice elements and struct fields through boxes made before and after, and on three map keys of 7 key types (read: 12) through plain boxes, sub-boxes and two not-initialised boxes per key, with every subset of the keys present at the start; after every step every box is read through every suited accessor and the whole container is compared; rejected writes included; byte strings read and written before are checked to stay what they were",
		Assumptions: []string{
			"an accessor is suited to an element type when Go's reflection accepts it for that kind; for a map it must also be assignable",
			"reading a missing key through a plain map box is undefined",
			"the index sub-box of a map box addresses nothing; a key sub-box of a map box addresses another key of the same map",
		},
		Run: run25,
	})
}

type (
	myInt25    int64
	myString25 string
	myStruct25 struct {
		A int
		B string
	}
)

// elem25 is an element type with its values and suited typed accessors.
type elem25 struct {
	typ  reflect.Type
	vals []interface{}
}

func elems25() []elem25 {
	x := 5
	t := func(vals ...interface{}) elem25 { return elem25{reflect.TypeOf(vals[0]), vals} }
	iface := reflect.TypeOf((*interface{})(nil)).Elem()
	errT := reflect.TypeOf((*error)(nil)).Elem()
	return []elem25{
		t(int64(1), int64(-1), int64(math.MinInt64), int64(math.MaxInt64), int64(0)),
		t(uint64(1), uint64(math.MaxUint64), uint64(0), uint64(1<<63), uint64(97)),
		t(1.5, math.Copysign(0, -1), math.Inf(1), math.NaN(), 0.0),
		t(true, false),
		t("a", "", "漢字", "a\x00\xff", "b"),
		t([]byte("ab"), []byte{}, []byte{0, 255}, []byte(nil), []byte("c")),
		{iface, []interface{}{int64(7), nil, "s", 1.25, uint64(9), true, []byte("x"), int(3), myStruct25{1, "q"}, []interface{}{1}}},
		t(1, -1, 0), t(int8(1), int8(-128), int8(127)), t(int16(1), int16(-32768)), t(int32(1), int32(math.MinInt32)),
		t(uint(1), uint(0)), t(uint8(1), uint8(255)), t(uint16(1), uint16(65535)), t(uint32(1), uint32(math.MaxUint32)),
		t(float32(1.5), float32(math.Inf(-1))), t(myInt25(3), myInt25(-3)), t(myString25("m"), myString25("")),
		t(myStruct25{1, "x"}, myStruct25{2, "y"}), t(&x, (*int)(nil)), t([]int{5}, []int(nil), []int{1, 2}),
		t(map[string]int{"a": 1}, map[string]int{}), t([2]int{1, 2}, [2]int{}),
		{errT, []interface{}{errors.New("e"), nil}},
	}
}

func eq25(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

// typedSet writes v through the typed setter; false when no typed setter suits.
func typedSet25(b p.Box, v interface{}, exact bool) bool {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return false
	}
	if exact {
		switch v.(type) {
		case int64, uint64, float64, bool, string, []byte:
		default:
			return false
		}
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.SetInt(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.SetUint(rv.Uint())
	case reflect.Float32, reflect.Float64:
		b.SetFloat(rv.Float())
	case reflect.Bool:
		b.SetBool(rv.Bool())
	case reflect.String:
		b.SetString(rv.String())
	case reflect.Slice:
		if rv.Type().Elem().Kind() != reflect.Uint8 {
			return false
		}
		b.SetBytes(rv.Bytes())
	default:
		return false
	}
	return true
}

// read25 reads a box through every suited accessor and compares with v.
func read25(b p.Box, v interface{}, typed bool) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("reading panics: %v", x)
		}
	}()
	if got := b.GetAny(); !eq25(got, v) {
		return fmt.Sprintf("GetAny gives %T %#v, want %T %#v", got, got, v, v)
	}
	if !typed {
		return ""
	}
	rv := reflect.ValueOf(v)
	var got, want interface{}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		got, want = b.GetInt(), rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		got, want = b.GetUint(), rv.Uint()
	case reflect.Float32, reflect.Float64:
		got, want = b.GetFloat(), rv.Float()
	case reflect.Bool:
		got, want = b.GetBool(), rv.Bool()
	case reflect.String:
		got, want = b.GetString(), rv.String()
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			got, want = b.GetBytes(), rv.Bytes()
		}
	}
	if !eq25(got, want) {
		return fmt.Sprintf("typed read gives %T %#v, want %T %#v", got, got, want, want)
	}
	return ""
}

func run25(r *kit.Run) {
	es := elems25()
	depth, nv := 4, 4
	if r.Thorough {
		depth, nv = 5, 5
	}
	vals := func(e elem25) []interface{} {
		if len(e.vals) > nv && e.typ.Kind() != reflect.Interface {
			return e.vals[:nv]
		}
		return e.vals
	}
	// writable elements: array, slice, struct fields
	kinds := []string{"array", "slice", "struct", "variables"}
	r.Sub("elements", len(es)*4, func(w *kit.W, i int) {
		e, kind := es[i/4], kinds[i%4]
		vs := vals(e)
		type op struct {
			at, val int
			typed   bool
		}
		var ops []op
		for at := 0; at < 3; at++ {
			for v := range vs {
				if at == 1 && v > 2 || at == 2 && v > 0 {
					continue // fewer values for the neighbours
				}
				ops = append(ops, op{at, v, false})
				if e.typ.Kind() != reflect.Interface {
					ops = append(ops, op{at, v, true})
				}
			}
		}
		var hist []op
		w.Desc(func() string {
			var s []string
			for _, o := range hist {
				s = append(s, fmt.Sprintf("[%d] typed=%v := %#v", o.at, o.typed, vs[o.val]))
			}
			return fmt.Sprintf("%s of %v: %s", kind, e.typ, strings.Join(s, "; "))
		})
		run := func() {
			raw := make([]reflect.Value, 3)
			early := make([]p.Box, 3)
			var fresh func(k int) p.Box
			switch kind {
			case "array":
				c := reflect.New(reflect.ArrayOf(3, e.typ)).Elem()
				for k := range raw {
					raw[k] = c.Index(k)
				}
				fresh = func(k int) p.Box { return p.ReflectionBox{Val: c}.Index(k) }
			case "slice":
				c := reflect.MakeSlice(reflect.SliceOf(e.typ), 3, 5)
				for k := range raw {
					raw[k] = c.Index(k)
				}
				fresh = func(k int) p.Box { return p.ReflectionBox{Val: c}.Index(k) }
			case "struct":
				c := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: e.typ}, {Name: "B", Type: e.typ}, {Name: "C", Type: e.typ}})).Elem()
				for k := range raw {
					raw[k] = c.Field(k)
				}
				fresh = func(k int) p.Box { return p.ReflectionBox{Val: c.Field(k)} }
			default:
				for k := range raw {
					raw[k] = reflect.New(e.typ).Elem()
				}
				fresh = func(k int) p.Box { return p.ReflectionBox{Val: raw[k]} }
			}
			model := make([]interface{}, 3)
			for k := range early {
				early[k] = fresh(k)
				model[k] = reflect.Zero(e.typ).Interface()
			}
			for n, o := range hist {
				b := early[o.at]
				if n%2 == 1 {
					b = fresh(o.at)
				}
				if o.typed {
					if !typedSet25(b, vs[o.val], false) {
						return
					}
				} else if m := try(func() { b.SetAny(vs[o.val]) }); m != "" {
					w.Fail("writing: %s", m)
					return
				}
				model[o.at] = vs[o.val]
				w.Transitions(1)
			}
			w.Eval()
			w.States(1)
			for k := range model {
				if !eq25(raw[k].Interface(), model[k]) {
					w.Fail("element %d holds %#v, want %#v", k, raw[k].Interface(), model[k])
					return
				}
				typed := e.typ.Kind() != reflect.Interface
				for _, b := range []p.Box{early[k], fresh(k)} {
					if m := read25(b, model[k], typed); m != "" {
						w.Fail("element %d: %s", k, m)
						return
					}
				}
			}
			w.Nontrivial()
			w.SeeStr(fmt.Sprint(e.typ, model, len(hist)))
		}
		var explore func()
		explore = func() {
			if run(); w.Failed() || len(hist) >= depth {
				return
			}
			for _, o := range ops {
				hist = append(hist, o)
				if explore(); w.Failed() {
					return
				}
				hist = hist[:len(hist)-1]
			}
		}
		explore()
	})
	// what was read, and what was written, stays what it was, whatever is written afterwards
	blobs := [][]byte{nil, {}, {1}, {2}, {1, 2}, {3, 4}, {1, 2, 3}, {9, 8, 7}, []byte(strings.Repeat("a", 40)), []byte(strings.Repeat("b", 40))}
	nb := len(blobs)
	r.Sub("bytes-stay", nb*nb*nb*5, func(w *kit.W, i int) {
		kind := i % 5
		i /= 5
		bt := reflect.TypeOf([]byte(nil))
		var b p.Box
		switch kind {
		case 0:
			b = p.ReflectionBox{Val: reflect.New(bt).Elem()}
		case 1:
			b = p.ReflectionBox{Val: reflect.MakeSlice(reflect.SliceOf(bt), 3, 3)}.Index(1)
		case 2:
			b = p.ReflectionBox{Val: reflect.ValueOf(&struct{ A, B []byte }{}).Elem().Field(1)}
		case 3:
			b = p.MapContainerReflectionBox{Container: reflect.ValueOf(map[string][]byte{"k": {5}}), Key: reflect.ValueOf("k")}
		case 4:
			b = &p.NotInitializedMapContainerReflectionBox{Container: reflect.ValueOf(map[int][]byte{4: {5}}), Key: reflect.ValueOf(4)}
		}
		var given, copies, reads [][]byte
		for _, k := range []int{i % nb, i / nb % nb, i / nb / nb} {
			v := append([]byte(nil), blobs[k]...)
			w.Descf("kind %d: writing %q, %q, %q", kind, blobs[i%nb], blobs[i/nb%nb], blobs[i/nb/nb])
			given, copies = append(given, v), append(copies, append([]byte(nil), v...))
			b.SetBytes(v)
			w.Eval()
			w.Transitions(1)
			reads = append(reads, b.GetBytes())
			for j := range given {
				if string(given[j]) != string(copies[j]) {
					w.Fail("the slice written as number %d became %q, was %q", j, given[j], copies[j])
					return
				}
				if string(reads[j]) != string(copies[j]) {
					w.Fail("what was read after write number %d became %q, was %q", j, reads[j], copies[j])
					return
				}
			}
		}
		w.States(1)
		w.Nontrivial()
	})
	// reading keyed and indexed elements of values inside boxes
	r.Sub("sub-boxes", 1, func(w *kit.W, _ int) {
		type node struct {
			M map[string]interface{}
			L [][]int64
			K map[int]map[string]string
			C map[myStruct25]float64
		}
		v := &node{M: map[string]interface{}{"a": int64(1), "b": []string{"x", "y"}, "": nil}, L: [][]int64{{1, 2}, {3}}, K: map[int]map[string]string{1: {"p": "q", "r": "s"}, 2: {}}, C: map[myStruct25]float64{{1, "z"}: 2.5, {2, "z"}: 3.5}}
		w.Descf("sub-boxes of nested values")
		box := func(x interface{}) p.Box { return p.ReflectionBox{Val: reflect.ValueOf(x)} }
		for k, x := range v.M {
			if m := read25(box(v.M).MapIndex(k), x, false); m != "" {
				w.Fail("key %q: %s", k, m)
			}
			if m := read25(box(v.M).ComplexMapIndex(k), x, false); m != "" {
				w.Fail("key %q: %s", k, m)
			}
		}
		for i, l := range v.L {
			for j := range l {
				b := box(v.L).Index(i).Index(j)
				if m := read25(b, l[j], true); m != "" {
					w.Fail("element %d %d: %s", i, j, m)
				}
				b.SetInt(int64(10*i + j + 50))
				if v.L[i][j] != int64(10*i+j+50) {
					w.Fail("element %d %d was not written", i, j)
				}
			}
		}
		if v.L[0][0] != 50 || v.L[0][1] != 51 || v.L[1][0] != 60 {
			w.Fail("elements %v", v.L)
		}
		for k, m := range v.K {
			for s, x := range m {
				if e := read25(box(v.K).ComplexMapIndex(k).MapIndex(s), x, true); e != "" {
					w.Fail("key %d %q: %s", k, s, e)
				}
			}
		}
		for k, x := range v.C {
			if e := read25(box(v.C).ComplexMapIndex(k), x, true); e != "" {
				w.Fail("key %v: %s", k, e)
			}
		}
		// keys of every kind, all present or one missing
		keys := [][]interface{}{{"k", "l", "", "K", "\x00", "k\x00", "é", "e\u0301"}, {1, 0, -1, 1 << 40}, {myStruct25{1, "a"}, myStruct25{1, "b"}, myStruct25{2, "a"}, myStruct25{}}, {3.5, 0.5, -1.5, 0.0, math.Inf(1)},
			{[2]int{1, 2}, [2]int{2, 1}, [2]int{}, [2]int{2, 2}}, {myString25("k"), myString25("K"), myString25("")}, {myInt25(3), myInt25(-3), myInt25(0)}, {true, false}, {byte(0), byte(1), byte(255)}, {'a', 'b', rune(-1)}, {complex(1, 2), complex(2, 1), complex(0, 0)}}
		for _, ks := range keys {
			for _, anyKey := range []bool{false, true} {
				kt := reflect.TypeOf(ks[0])
				if anyKey {
					kt = reflect.TypeOf((*interface{})(nil)).Elem()
				}
				m := reflect.MakeMap(reflect.MapOf(kt, reflect.TypeOf(int64(0))))
				for k, key := range ks {
					m.SetMapIndex(reflect.ValueOf(key), reflect.ValueOf(int64(k)))
				}
				w.Eval()
				for k, key := range ks {
					boxes := []p.Box{p.ReflectionBox{Val: m}.ComplexMapIndex(key), p.ReflectionBox{Val: reflect.ValueOf([]interface{}{m.Interface()}[0])}.ComplexMapIndex(key)}
					if t, ok := key.(string); ok {
						boxes = append(boxes, p.ReflectionBox{Val: m}.MapIndex(t))
					}
					for _, b := range boxes {
						if e := read25(b, int64(k), true); e != "" {
							w.Fail("key %#v of %d: %s", key, len(ks), e)
							return
						}
					}
				}
			}
		}
		// every kind of element below every kind of container, read through sub-boxes
		for _, e := range es {
			for n := 1; n <= 10; n++ {
				list, arr := reflect.MakeSlice(reflect.SliceOf(e.typ), n, n+1), reflect.New(reflect.ArrayOf(n, e.typ)).Elem()
				byKey, byInt := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), e.typ)), reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), e.typ))
				var want []interface{}
				for k := 0; k < n; k++ {
					x := e.vals[k%len(e.vals)]
					rv := reflect.Zero(e.typ)
					if x != nil {
						rv = reflect.ValueOf(x)
					}
					want = append(want, x)
					list.Index(k).Set(rv)
					arr.Index(k).Set(rv)
					byKey.SetMapIndex(reflect.ValueOf(fmt.Sprint(k)), rv)
					byInt.SetMapIndex(reflect.ValueOf(k), rv)
				}
				deep := map[string]interface{}{"m": byKey.Interface()}
				w.Eval()
				for k, x := range want {
					typed := e.typ.Kind() != reflect.Interface
					for q, b := range []p.Box{p.ReflectionBox{Val: list}.Index(k), p.ReflectionBox{Val: arr}.Index(k), p.ReflectionBox{Val: byKey}.MapIndex(fmt.Sprint(k)), p.ReflectionBox{Val: byKey}.ComplexMapIndex(fmt.Sprint(k)), p.ReflectionBox{Val: byInt}.ComplexMapIndex(k)} {
						if m := read25(b, x, typed); m != "" {
							w.Fail("sub-box %d of %d elements of %v: element %d: %s", q, n, e.typ, k, m)
							return
						}
					}
				}
				if m := read25(box(deep).MapIndex("m"), byKey.Interface(), false); m != "" {
					w.Fail("map of %v in a map: %s", e.typ, m)
					return
				}
			}
		}
		w.Eval()
		w.States(1)
		w.Nontrivial()
	})
	maps25(r, es, vals, depth-2)
}

func maps25(r *kit.Run, es []elem25, vals func(elem25) []interface{}, depth int) {
	keySets := [][]interface{}{{"k", "l", ""}, {1, 0, -1}, {myStruct25{1, "a"}, myStruct25{1, "b"}, myStruct25{}}, {3.5, 0.5, -1.5}, {[2]int{2, 1}, [2]int{1, 2}, [2]int{}}, {myString25("K"), myString25("k"), myString25("")}, {byte(255), byte(0), byte(1)}}
	rejected := map[string]interface{}{"": struct{ X chan int }{}}
	r.Sub("maps", len(es)*len(keySets)*8, func(w *kit.W, i int) {
		e := es[i/8/len(keySets)]
		keys := keySets[i/8%len(keySets)]
		present := i % 8
		vs := vals(e)
		// boxes: per key a plain one, a sub-box of a plain one, and two not-initialised ones
		type op struct {
			box, val int // val -1: a value that cannot be stored
			typed    bool
		}
		const nb = 4
		var ops []op
		for b := 0; b < 3*nb; b++ {
			if b/nb == 2 && b%nb != 3 {
				continue
			}
			for v := range vs {
				if e.typ.Kind() == reflect.Interface && b < nb && b%nb != 1 {
					// every kind of value
				} else if b%nb < 2 && v > 1 || b/nb > 0 && v > 0 {
					continue
				}
				ops = append(ops, op{b, v, false}, op{b, v, true})
			}
			if b%nb >= 2 && e.typ.Kind() != reflect.Interface {
				ops = append(ops, op{b, -1, false})
			}
		}
		var hist []op
		name := func(b int) string {
			return fmt.Sprintf("%s(%#v)", []string{"plain", "sub", "uninit", "uninit'"}[b%nb], keys[b/nb])
		}
		w.Desc(func() string {
			var s []string
			for _, o := range hist {
				if o.val < 0 {
					s = append(s, name(o.box)+" := unsuited value")
				} else {
					s = append(s, fmt.Sprintf("%s typed=%v := %#v", name(o.box), o.typed, vs[o.val]))
				}
			}
			return fmt.Sprintf("map of %T to %v with keys %03b present: %s", keys[0], e.typ, present, strings.Join(s, "; "))
		})
		run := func() {
			c := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(keys[0]), e.typ))
			model := map[interface{}]interface{}{}
			for k, key := range keys {
				if present>>k&1 == 1 {
					v := vs[(k+1)%len(vs)]
					p.MapContainerReflectionBox{Container: c, Key: reflect.ValueOf(key)}.SetAny(v)
					model[key] = v
				}
			}
			var boxes [3 * nb]p.Box
			var init [3 * nb]bool
			for k, key := range keys {
				plain := p.MapContainerReflectionBox{Container: c, Key: reflect.ValueOf(key)}
				other := p.MapContainerReflectionBox{Container: c, Key: reflect.ValueOf(keys[(k+1)%3])}
				boxes[nb*k] = plain
				if s, ok := key.(string); ok {
					boxes[nb*k+1] = other.MapIndex(s)
				} else {
					boxes[nb*k+1] = other.ComplexMapIndex(key)
				}
				boxes[nb*k+2] = &p.NotInitializedMapContainerReflectionBox{Container: c, Key: reflect.ValueOf(key)}
				boxes[nb*k+3] = &p.NotInitializedMapContainerReflectionBox{Container: c, Key: reflect.ValueOf(key)}
				init[nb*k], init[nb*k+1] = true, true
			}
			for _, o := range hist {
				b := boxes[o.box]
				if o.val < 0 {
					if try(func() { b.SetAny(rejected[""]) }) == "" {
						w.Fail("an unsuited value was accepted")
						return
					}
					continue
				}
				v := vs[o.val]
				if o.typed {
					ok := false
					if m := try(func() {
						ok = typedSet25(b, v, true)
					}); m != "" {
						w.Fail("writing: %s", m)
						return
					}
					if !ok {
						return
					}
				} else if m := try(func() { b.SetAny(v) }); m != "" {
					w.Fail("writing: %s", m)
					return
				}
				model[keys[o.box/nb]] = v
				init[o.box] = true
				w.Transitions(1)
			}
			w.Eval()
			w.States(1)
			if c.Len() != len(model) {
				w.Fail("the map has %d keys, want %d", c.Len(), len(model))
				return
			}
			for key, v := range model {
				got := c.MapIndex(reflect.ValueOf(key))
				if !got.IsValid() || !eq25(got.Interface(), v) {
					w.Fail("the map holds %v under %#v, want %#v", got, key, v)
					return
				}
			}
			for k, b := range boxes {
				key := keys[k/nb]
				if !init[k] {
					for n, f := range []func(){func() { b.GetAny() }, func() { b.GetInt() }, func() { b.GetUint() }, func() { b.GetFloat() }, func() { b.GetBool() }, func() { b.GetString() }, func() { b.GetBytes() }, func() { b.Index(0) }, func() { b.MapIndex("k") }, func() { b.ComplexMapIndex(keys[0]) }} {
						if try(f) == "" {
							w.Fail("%s: read %d does not fail before the first write", name(k), n)
							return
						}
					}
					continue
				}
				v, ok := model[key]
				if !ok {
					continue
				}
				if m := read25(b, v, true); m != "" {
					w.Fail("%s: %s", name(k), m)
					return
				}
				if u, isU := b.(*p.NotInitializedMapContainerReflectionBox); isU {
					if m := try(func() { u.Index(0) }); m != "" {
						w.Fail("%s: Index after the first write: %s", name(k), m)
						return
					}
				}
				for _, k2 := range keys {
					v2, ok := model[k2]
					if !ok {
						// addressing a missing key changes nothing
						try(func() { b.ComplexMapIndex(k2) })
						if s, isS := k2.(string); isS {
							try(func() { b.MapIndex(s) })
						}
						if m := read25(b, v, true); m != "" {
							w.Fail("%s after addressing the missing key %#v: %s", name(k), k2, m)
							return
						}
						if _, there := model[k2]; there != c.MapIndex(reflect.ValueOf(k2)).IsValid() {
							w.Fail("addressing the missing key %#v added it", k2)
							return
						}
						continue
					}
					sub := b.ComplexMapIndex(k2)
					if m := read25(sub, v2, true); m != "" {
						w.Fail("%s.ComplexMapIndex(%#v): %s", name(k), k2, m)
						return
					}
					if s, ok := k2.(string); ok {
						if m := read25(b.MapIndex(s), v2, true); m != "" {
							w.Fail("%s.MapIndex(%q): %s", name(k), s, m)
							return
						}
					}
				}
			}
			w.Nontrivial()
			w.SeeStr(fmt.Sprint(e.typ, model, len(hist)))
		}
		var explore func()
		explore = func() {
			if run(); w.Failed() || len(hist) >= depth {
				return
			}
			for _, o := range ops {
				hist = append(hist, o)
				if explore(); w.Failed() {
					return
				}
				hist = hist[:len(hist)-1]
			}
		}
		explore()
	})
}
