package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/takenoco/_examples/csv"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C30", Level: "exploration",
		Rule:   "every column list up to a length over the field columns, a foreign and a blank column, for every record type, with every value of every field kind including the limits; and every header and row with every malformed, out-of-range or missing cell at every place; a case is non-trivial when a field is mapped or the input has to be rejected",
		Bounds: "column lists of up to 4 (thorough 5) names, 11 record types (plain, tagged, swapped tags, every number kind, named types, embedded and unsupported fields), up to 3 rows with rotated values (and 1100 rows); every cell text of a list of 40 against every number kind; every row length from 1 to the header's",
		Assumptions: []string{
			"two fields never name the same column; a tagged field is addressed by its Go name only when no column has its tag; field kinds other than string and numbers have no specified text",
			"rows that would be one empty cell, texts with a header only, and cells beyond the header are outside the property",
			"of several columns with the same name one holds (gives) the value",
		},
		Run: run30,
	})
}

type (
	named30 string
	num30   int16
	Emb30   struct{ Q string }

	plain30 struct {
		A string
		B int
		C float64
	}
	tagged30 struct {
		A string  `csv:"x"`
		B int8    `csv:"y y"`
		C uint16  `csv:"z,\""`
		D float32 `csv:"漢"`
	}
	swap30 struct {
		B string `csv:"A"`
		A string `csv:"B"`
	}
	ints30 struct {
		I   int
		I8  int8
		I16 int16
		I32 int32
		I64 int64
	}
	uints30 struct {
		U   uint
		U8  uint8
		U16 uint16
		U32 uint32 `csv:"u32"`
		U64 uint64
	}
	floats30 struct {
		F32 float32
		F64 float64 `csv:" f64 "`
	}
	odd30 struct {
		A named30
		b string
		N num30 `csv:"n"`
		D []byte
		Emb30
		P *int
		Z string `csv:"" json:"q"`
	}
	// named types of every kind
	nI30    int
	nI64x30 int64
	nU30    uint
	nU830   uint8
	nU1630  uint16
	nU3230  uint32
	nU6430  uint64
	nF3230  float32
	nF6430  float64
	month30 = time.Month
	kinds30 struct {
		I   nI30
		I64 time.Duration
		J   nI64x30
		U   nU30 `csv:"u"`
		U8  nU830
		U16 nU1630
		M   month30
	}
	kinds30b struct {
		U32 nU3230
		U64 nU6430
		F32 nF3230
		F64 nF6430 `csv:"f"`
		W   time.Weekday
		P   uintptr
	}
	signs30 struct {
		A string  `csv:"-"`
		B int     `csv:"-,"`
		C string  `csv:"omitempty"`
		D uint8   `csv:"*"`
		E float64 `csv:"#"`
		F string  `csv:"F,omitempty"`
	}
	one30  struct{ Name string }
	wide30 struct {
		A, B, C string
		D, E    int
		F       float64 `csv:"a"`
	}
)

var types30 = []reflect.Type{
	reflect.TypeOf(plain30{}), reflect.TypeOf(tagged30{}), reflect.TypeOf(swap30{}), reflect.TypeOf(ints30{}), reflect.TypeOf(uints30{}),
	reflect.TypeOf(floats30{}), reflect.TypeOf(odd30{}), reflect.TypeOf(one30{}), reflect.TypeOf(wide30{}), reflect.TypeOf(kinds30{}), reflect.TypeOf(kinds30b{}), reflect.TypeOf(signs30{}),
}

// field30 is one field a column can hold.
type field30 struct {
	index int
	col   string
	kind  reflect.Kind
	bits  int
	name  string
}

// places30 are the columns that give a field its value: those named by its tag or, when there
// is none and no other field asks for them, those with its name.
func places30(fs []field30, f field30, where map[string][]int) []int {
	if js := where[f.col]; len(js) > 0 {
		return js
	}
	for _, g := range fs {
		if g.col == f.name {
			return nil
		}
	}
	return where[f.name]
}

func mapped30(t reflect.Type) (fs []field30) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		col := f.Tag.Get("csv")
		if col == "" {
			col = f.Name
		}
		switch k := f.Type.Kind(); k {
		case reflect.String:
			fs = append(fs, field30{i, col, k, 0, f.Name})
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
			fs = append(fs, field30{i, col, k, f.Type.Bits(), f.Name})
		}
	}
	return fs
}

func (f field30) signed() bool { return f.kind >= reflect.Int && f.kind <= reflect.Int64 }
func (f field30) unsigned() bool {
	return f.kind >= reflect.Uint && f.kind <= reflect.Uint64
}
func (f field30) float() bool { return f.kind == reflect.Float32 || f.kind == reflect.Float64 }

var texts30 = []string{"a", "", "漢字", "x,y", `q"q`, " pad ", "l\nl", "\u00a0", "0", "1e5", "\r\n", `""`, "-7", "é"}

// values30 are the texts of the values a field takes.
func (f field30) values30() []string {
	switch {
	case f.signed():
		lim := new(big.Int).Lsh(big.NewInt(1), uint(f.bits-1))
		return []string{"1", "0", "-1", new(big.Int).Sub(lim, big.NewInt(1)).String(), new(big.Int).Neg(lim).String(), "42", "-100"}
	case f.unsigned():
		lim := new(big.Int).Lsh(big.NewInt(1), uint(f.bits))
		return []string{"1", "0", new(big.Int).Sub(lim, big.NewInt(1)).String(), "42", "200"}
	case f.kind == reflect.Float32:
		return []string{"1.5", "0", "-0", "-2.25", "0.1", "3.4028234663852886e38", "1.401298464324817e-45", "1e20", "-16777217", "1e21", "+Inf", "-Inf", "NaN"}
	case f.kind == reflect.Float64:
		return []string{"1.5", "0", "-0", "-2.25", "0.1", "1.7976931348623157e308", "5e-324", "1e20", "9007199254740993", "123456789.123456789", "1e21", "-1e-7", "+Inf", "-Inf", "NaN"}
	}
	return texts30
}

// set30 sets a field from one of the texts above.
func set30(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Float32, reflect.Float64:
		z, _ := strconv.ParseFloat(s, 64)
		v.SetFloat(z)
	default:
		z, _ := new(big.Int).SetString(s, 10)
		if v.CanInt() {
			v.SetInt(z.Int64())
		} else {
			v.SetUint(z.Uint64())
		}
	}
}

// rows30 makes n records whose fields take the values number seed, seed+1, ...
func rows30(t reflect.Type, n, seed int) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
	for i := 0; i < n; i++ {
		for k, f := range mapped30(t) {
			vs := f.values30()
			set30(s.Index(i).Field(f.index), vs[(seed+i+k*seed)%len(vs)])
		}
		if t == types30[6] {
			s.Index(i).FieldByName("D").SetBytes([]byte("bytes"))
			s.Index(i).FieldByName("Emb30").Field(0).SetString("emb")
		}
	}
	return s
}

// holds30 tells whether text is the value of a field.
func holds30(f field30, v reflect.Value, s string) bool {
	switch {
	case f.signed():
		return s == strconv.FormatInt(v.Int(), 10)
	case f.unsigned():
		return s == strconv.FormatUint(v.Uint(), 10)
	case f.float():
		z, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return false
		}
		if f.kind == reflect.Float32 {
			return math.Float32bits(float32(z)) == math.Float32bits(float32(v.Float()))
		}
		return math.Float64bits(z) == math.Float64bits(v.Float())
	}
	return s == v.String()
}

func marshal30(w *kit.W, t reflect.Type, cols []string, n, seed int) {
	w.Desc(func() string {
		return fmt.Sprintf("columns %q of %d %v (values %d)", clip26(fmt.Sprint(cols)), n, t, seed)
	})
	fs := mapped30(t)
	data := rows30(t, n, seed)
	orig := rows30(t, n, seed)
	ccols := append([]string{}, cols...)
	s, err := csv.Marshal(ccols, data.Interface())
	w.Eval()
	if err != nil {
		w.Fail("Marshal: %v", err)
		return
	}
	if !deepEqual30(data.Interface(), orig.Interface()) || !reflect.DeepEqual(ccols, cols) {
		w.Fail("Marshal changed its arguments")
		return
	}
	if n == 0 {
		if s != "" {
			w.Fail("no records give %q", s)
		}
		return
	}
	where := map[string][]int{}
	for j, c := range cols {
		where[c] = append(where[c], j)
	}
	hit := map[int]field30{}
	for _, f := range fs {
		for _, j := range where[f.col] {
			hit[j] = f
		}
	}
	if len(cols) == 1 {
		f, ok := hit[0]
		if !ok {
			w.Skip()
			return
		}
		for i := 0; i < n; i++ {
			if v := data.Index(i).Field(f.index); f.kind == reflect.String && v.String() == "" {
				w.Skip()
				return
			}
		}
	}
	table, ok := refCsv(s)
	if !ok || len(table) != n {
		w.Fail("Marshal gives %q, not %d rows", clip26(s), n)
		return
	}
	for i, row := range table {
		if len(row) != len(cols) {
			w.Fail("row %d has %d cells of %d: %q", i, len(row), len(cols), row)
			return
		}
		for j, c := range row {
			if _, ok := hit[j]; !ok && c != "" {
				w.Fail("row %d column %q (no field) is %q", i, cols[j], c)
				return
			}
		}
		for _, f := range fs {
			v := data.Index(i).Field(f.index)
			js := where[f.col]
			if len(js) == 0 {
				continue
			}
			full := 0
			for _, j := range js {
				if row[j] != "" {
					full++
				}
				if row[j] != "" && !holds30(f, v, row[j]) {
					w.Fail("row %d column %d %q is %q, the field is %v", i, j, cols[j], row[j], v)
					return
				}
			}
			if full > 1 || full == 0 && !(f.kind == reflect.String && v.String() == "") {
				w.Fail("row %d: the value %v is in %d columns %q", i, v, full, f.col)
				return
			}
		}
	}
	if len(hit) > 0 {
		w.Nontrivial()
	}
	w.SeeStr(s)

	// Read it back.
	for _, js := range where {
		if len(js) > 1 {
			return
		}
	}
	if len(cols) == 1 && strings.TrimSpace(cols[0]) == "" {
		return
	}
	back := reflect.New(data.Type())
	text := csv.ToCsv([][]string{cols}) + "\n" + s
	err = csv.Unmarshal(back.Interface(), text)
	w.Eval()
	if err != nil || back.Elem().Len() != n {
		w.Fail("reading %q back gives %d records (%v)", clip26(text), back.Elem().Len(), err)
		return
	}
	want := reflect.MakeSlice(data.Type(), n, n)
	for i := 0; i < n; i++ {
		for _, f := range hit {
			want.Index(i).Field(f.index).Set(data.Index(i).Field(f.index))
		}
	}
	if !deepEqual30(back.Elem().Interface(), want.Interface()) {
		w.Fail("reading %q back\n   got %s\n  want %s", clip26(text), clip26(fmt.Sprintf("%+v", back.Elem())), clip26(fmt.Sprintf("%+v", want)))
	}
}

// deepEqual30 is deep equality for which undefined floats are equal.
func deepEqual30(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || reflect.TypeOf(a) == reflect.TypeOf(b) && strings.Contains(fmt.Sprint(a), "NaN") && fmt.Sprintf("%+v", a) == fmt.Sprintf("%+v", b)
}

// quoted30 writes a table, every cell quoted.
func quoted30(t [][]string) string {
	var sb strings.Builder
	for i, r := range t {
		if i > 0 {
			sb.WriteString("\n")
		}
		for j, c := range r {
			if j > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(`"` + strings.ReplaceAll(c, `"`, `""`) + `"`)
		}
	}
	return sb.String()
}

// fits30 tells whether a text is a value of the field (known is false when the property does not say).
func fits30(f field30, s string) (v interface{}, fits, known bool) {
	digits := func(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }
	switch {
	case f.kind == reflect.String:
		return s, true, true
	case f.signed():
		d := s
		if s != "" && (s[0] == '-' || s[0] == '+') {
			d = s[1:]
		}
		if !digits(d) {
			return nil, false, true
		}
		z, _ := new(big.Int).SetString(d, 10)
		if s[0] == '-' {
			z.Neg(z)
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(f.bits-1))
		if z.Cmp(lim) >= 0 || z.Cmp(new(big.Int).Neg(lim)) < 0 {
			return nil, false, true
		}
		return z.Int64(), true, true
	case f.unsigned():
		if strings.HasPrefix(s, "+") && digits(s[1:]) {
			return nil, false, false
		}
		if s == "-0" {
			return nil, false, false
		}
		if !digits(s) {
			return nil, false, true
		}
		z, _ := new(big.Int).SetString(s, 10)
		if z.BitLen() > f.bits {
			return nil, false, true
		}
		return z.Uint64(), true, true
	}
	// floats: decimal notation only
	r := strings.TrimLeft(s, "+-")
	if len(s)-len(r) > 1 {
		return nil, false, true
	}
	m, e := r, ""
	if p := strings.IndexAny(r, "eE"); p >= 0 {
		m, e = r[:p], strings.TrimLeft(r[p+1:], "+-")
		if len(r[p+1:])-len(e) > 1 || !digits(e) {
			return nil, false, digits(strings.ReplaceAll(m, ".", "0"))
		}
	}
	if strings.ContainsAny(s, "_xXpPiInN") {
		return nil, false, false
	}
	if strings.Count(m, ".") > 1 || !digits(strings.Replace(m, ".", "", 1)) {
		return nil, false, true
	}
	z, err := strconv.ParseFloat(s, f.bits)
	if err != nil {
		return nil, false, true
	}
	return z, true, true
}

func same30(v reflect.Value, x interface{}) bool {
	switch z := x.(type) {
	case string:
		return v.String() == z
	case int64:
		return v.Int() == z
	case uint64:
		return v.Uint() == z
	case float64:
		if v.Kind() == reflect.Float32 {
			return float32(v.Float()) == float32(z)
		}
		return v.Float() == z
	}
	return false
}

// unmarshal30 reads a table (header first) into records that exist already.
func unmarshal30(w *kit.W, t reflect.Type, table [][]string, before int) {
	w.Desc(func() string {
		return fmt.Sprintf("reading %s into %d %v", clip26(fmt.Sprintf("%q", table)), before, t)
	})
	for i, r := range table {
		if len(r) == 0 || len(r) == 1 && r[0] == "" && i == len(table)-1 || i > 0 && len(r) > len(table[0]) {
			w.Skip()
			return
		}
	}
	fs := mapped30(t)
	target := reflect.New(reflect.SliceOf(t))
	if before > 0 {
		target.Elem().Set(rows30(t, before, 2))
	}
	old := target.Elem().Interface()
	err := csv.Unmarshal(target.Interface(), quoted30(table))
	w.Eval()
	if !deepEqual30(old, rows30(t, before, 2).Interface()) && before > 0 {
		w.Fail("the records that were there before changed to %+v", old)
		return
	}
	where := map[string][]int{}
	for j, c := range table[0] {
		where[c] = append(where[c], j)
	}
	bad, unsure := "", false
	for i, row := range table[1:] {
		for _, f := range fs {
			js := places30(fs, f, where)
			for _, j := range js {
				if j >= len(row) {
					if len(js) > 1 {
						unsure = true
					} else {
						bad = fmt.Sprintf("row %d has no cell %d for %s", i, j, f.col)
					}
					continue
				}
				_, ok, known := fits30(f, row[j])
				switch {
				case !known || !ok && len(js) > 1:
					unsure = true
				case !ok:
					bad = fmt.Sprintf("%q is not a value of %s (%v)", row[j], f.col, f.kind)
				}
			}
		}
	}
	got := target.Elem()
	if err != nil {
		if bad == "" && !unsure {
			w.Fail("error %v", err)
		} else if got.Len() != before || got.IsNil() != (before == 0) {
			w.Fail("error, and the target changed to %+v", got)
		}
		w.Nontrivial()
		w.SeeStr("error")
		return
	}
	if bad != "" {
		w.Fail("accepted as %+v although %s", got, bad)
		return
	}
	if got.Len() != len(table)-1 {
		w.Fail("%d records for %d rows", got.Len(), len(table)-1)
		return
	}
	was, mapped := reflect.ValueOf(old), false
	for i, row := range table[1:] {
		rec := got.Index(i)
		set := map[int]bool{}
		for _, f := range fs {
			js := places30(fs, f, where)
			if len(js) == 0 {
				continue
			}
			set[f.index] = true
			ok := false
			for _, j := range js {
				if j < len(row) {
					x, fit, _ := fits30(f, row[j])
					ok = ok || fit && same30(rec.Field(f.index), x)
					ok = ok || !fit && unsure
				}
			}
			if !ok {
				w.Fail("record %d field %s is %v, the row is %q", i, t.Field(f.index).Name, rec.Field(f.index), row)
				return
			}
			mapped = true
		}
		for k := 0; k < t.NumField(); k++ {
			if set[k] || rec.Field(k).IsZero() {
				continue
			}
			if i < was.Len() && fmt.Sprint(was.Index(i).Field(k)) == fmt.Sprint(rec.Field(k)) {
				continue
			}
			w.Fail("record %d field %s, which has no column, is %v", i, t.Field(k).Name, rec.Field(k))
			return
		}
	}
	if mapped {
		w.Nontrivial()
	}
	w.SeeStr(fmt.Sprint(got))
}

// columns30 are the names a list of columns is made of.
func columns30(t reflect.Type) []string {
	var out []string
	for _, f := range mapped30(t) {
		if len(out) < 6 {
			out = append(out, f.col)
		}
	}
	return append(out, "zz", "")
}

var cells30 = []string{"", "x", "1", "0", "-1", "+1", "1.5", "1e3", " 1", "1 ", "1_000", "--1", "+-1", "-", "+", ".", "1.", ".5", "007", "-0", "-05", "-00", "-007", "+05", "00", "-", "- 5", "−5", "٣", "１２", "1_0", "1e", "e1", "1e400", "-1e400", "1e39", "0x10", "1,5", "1\n", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "１", "1a", "NaN1", "true", "\x00", `"1"`}

func run30(r *kit.Run) {
	n := 4
	if r.Thorough {
		n = 5
	}
	for _, t := range types30 {
		t := t
		names := columns30(t)
		m := n
		if len(names) > 6 && !r.Thorough {
			m = 3
		}
		lists := kit.NewStrings(m, names...)
		list := func(i int) (out []string) {
			out = []string{}
			for _, d := range lists.Digits(i) {
				out = append(out, names[d])
			}
			return out
		}
		const vals, counts = 14, 3
		r.Sub("marshal-"+t.Name(), lists.Len()-1, func(w *kit.W, i int) {
			cols := list(i + 1)
			for seed := 0; seed < vals; seed++ {
				if len(cols) >= 4 && seed%3 != 0 {
					continue
				}
				for k := 0; k <= counts; k++ {
					if k == 0 && seed > 0 {
						continue
					}
					if marshal30(w, t, cols, k, seed); w.Failed() {
						return
					}
				}
			}
		})
		fs := mapped30(t)
		byCol := map[string]field30{}
		for _, f := range fs {
			byCol[f.col] = f
		}
		good := func(col string, k int) string {
			f, ok := byCol[col]
			if !ok {
				return "extra"
			}
			vs := f.values30()
			return vs[k%len(vs)]
		}
		// Unmarshal: well-formed tables, then one odd cell, then one short row.
		r.Sub("unmarshal-"+t.Name(), lists.Len()-1, func(w *kit.W, i int) {
			cols := list(i + 1)
			if len(cols) == 1 && cols[0] == "" {
				w.Skip()
				return
			}
			table := func(rows, seed int) [][]string {
				out := [][]string{cols}
				for k := 0; k < rows; k++ {
					var row []string
					for j, c := range cols {
						row = append(row, good(c, seed+k+j))
					}
					out = append(out, row)
				}
				return out
			}
			for rows := 1; rows <= 3; rows++ {
				for seed := 0; seed < 4; seed++ {
					for before := 0; before <= 4; before += 2 {
						if unmarshal30(w, t, table(rows, seed), before); w.Failed() {
							return
						}
					}
				}
			}
			for rows := 1; rows <= 3; rows += 2 {
				for k := 1; k <= rows; k++ {
					for j := 1; j <= len(cols); j++ {
						tab := table(rows, 0)
						tab[k] = tab[k][:j]
						for before := 0; before <= 2; before += 2 {
							if unmarshal30(w, t, tab, before); w.Failed() {
								return
							}
						}
					}
				}
			}
			if len(cols) > 3 && !r.Thorough {
				return
			}
			for k := 1; k <= 3; k++ {
				if len(cols) == 3 && k != 2 && !r.Thorough {
					continue
				}
				for j, c := range cols {
					if _, ok := byCol[c]; !ok {
						continue
					}
					for _, s := range cells30 {
						tab := table(3, 0)
						tab[k][j] = s
						if unmarshal30(w, t, tab, 2); w.Failed() {
							return
						}
						if len(cols) == 1 {
							if unmarshal30(w, t, [][]string{cols, {s}}, 0); w.Failed() {
								return
							}
						}
					}
				}
			}
		})
	}
	// A single missing or unexported column, names in other cases, blanks around names.
	headers := []string{"x", "y y", "f", "f64", "F", "F64", "U", "u", "U32", "u32", "C", "b", "B", "a", "A", " A", "A ", "Z", "z", "q", "N", "n", "D", "Emb30", "Q", "P", "\ufeffA", "csv", "json"}
	r.Sub("foreign-headers", len(types30)*len(headers)*len(headers), func(w *kit.W, i int) {
		t := types30[i%len(types30)]
		i /= len(types30)
		for _, h := range []string{headers[i%len(headers)], headers[i/len(headers)]} {
			for k := 0; k < t.NumField(); k++ {
				f := t.Field(k)
				if f.Name == h && (f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Ptr || f.Type.Kind() == reflect.Struct) {
					w.Skip()
					return
				}
			}
		}
		unmarshal30(w, t, [][]string{{headers[i%len(headers)], headers[i/len(headers)]}, {"1", "2"}, {"3", "4"}}, 2)
	})
	r.Sub("long", 4*len(types30), func(w *kit.W, i int) {
		t := types30[i/4]
		var cols []string
		for _, f := range mapped30(t) {
			cols = append(cols, f.col)
		}
		cols = append(cols, "zz")
		switch i % 4 {
		case 0:
			marshal30(w, t, cols, 1100, 1)
		case 1:
			marshal30(w, t, cols, 1025, 0)
		case 2:
			for k := 0; k < 1100; k++ {
				cols = append(cols, fmt.Sprint("c", k))
			}
			marshal30(w, t, cols, 3, 0)
		case 3:
			for k := 0; k < 300; k++ {
				cols = append([]string{fmt.Sprint("c", k)}, cols...)
			}
			marshal30(w, t, cols, 20, 0)
		}
	})
	// Wrong targets and sources.
	var nilp *[]plain30
	var none []plain30
	x := 0
	rec := plain30{A: "a"}
	strs := []string{"q"}
	ptrs := []*plain30{{}}
	bad := []interface{}{nil, nilp, none, []plain30{{}}, rec, &rec, &x, x, "s", &strs, &ptrs, map[string]string{}, &map[string]string{}, func() {}, &[1]plain30{}, new(interface{}), &[][]string{}, make(chan int), (*int)(nil), []interface{}{1}, &[]interface{}{1}}
	texts := []string{"A,B\nx,1", "A,B\nx", "A\n", "", `"`, "zz\nx"}
	r.Sub("wrong-targets", len(bad)*len(texts), func(w *kit.W, i int) {
		b := bad[i%len(bad)]
		s := texts[i/len(bad)]
		w.Descf("reading %q into a %T", s, b)
		err := csv.Unmarshal(b, s)
		w.Eval()
		w.Nontrivial()
		if err == nil {
			w.Fail("no error")
		}
		if rec.A != "a" || x != 0 || strs[0] != "q" {
			w.Fail("the target changed")
		}
	})
	badm := []interface{}{nil, nilp, rec, &rec, x, "s", strs, ptrs, map[string]string{}, func() {}, []interface{}{rec}, [][]string{{"a"}}, []int{}, []*plain30{}, &[]plain30{{}}}
	r.Sub("wrong-sources", len(badm)*4, func(w *kit.W, i int) {
		b := badm[i%len(badm)]
		cols := [][]string{nil, {"A"}, {"A", "B"}, {"zz", "A"}}[i/len(badm)]
		w.Descf("writing %T", b)
		s, err := csv.Marshal(cols, b)
		w.Eval()
		w.Nontrivial()
		if err == nil {
			w.Fail("no error but %q", s)
		}
	})
	// A text that is not CSV leaves the target alone.
	broken := []string{`"`, `A,B` + "\n" + `x,"1`, `A,B` + "\n" + `"x"y,1`, `"A"B` + "\nx,1"}
	r.Sub("broken-texts", len(broken)*3, func(w *kit.W, i int) {
		s, n := broken[i%len(broken)], i/len(broken)
		w.Descf("reading %q into %d records", s, n)
		t := types30[0]
		p := reflect.New(reflect.SliceOf(t))
		if n > 0 {
			p.Elem().Set(rows30(t, n, 1))
		}
		err := csv.Unmarshal(p.Interface(), s)
		w.Eval()
		w.Nontrivial()
		if err == nil {
			w.Fail("no error")
		} else if p.Elem().Len() != n || n > 0 && !deepEqual30(p.Elem().Interface(), rows30(t, n, 1).Interface()) {
			w.Fail("the target changed to %+v", p.Elem())
		}
	})
}
