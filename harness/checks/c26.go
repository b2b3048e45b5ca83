package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C26", Quick: 40000, Thorough: 1500000, CPUSec: 20,
		Rule:      "each case converts 40 values of every supported Go type (whole, fractional and huge numbers, numbers as text, words, dates) to every cell type with NewCellWithType and compares the value of the result with the value given, as exact rationals, and orders all pairs of a set of numeric and boolean cells and of a set of dates with Less; distinct = distinct (value, type)",
		Assume:    []string{"numbers are finite", "words other than those documented in boolStrings have no boolean value", "text compared to numbers is not claimed"},
		MinEvents: map[string]int{"conversions": 1000000, "changed_type": 300000, "kept": 200000, "to_date": 20000, "text_numbers": 30000, "words": 5000, "ordered": 1000000, "less": 300000, "dates_ordered": 100000},
		Case:      caseC26,
	})
}

var trueWords = []string{"yes", "true", "t", "y", "1", "on", "YES", "TRUE", "T", "Y", "1.0", "ON"}
var falseWords = []string{"no", "false", "f", "n", "0", "off", "NO", "FALSE", "F", "N", "0.0", "OFF"}

// convValue makes a value, mostly numbers that are at the edge of a type.
func convValue(r *rand.Rand) (interface{}, gridCell) {
	switch r.IntN(8) {
	case 0: // the text of a number
		var s string
		switch r.IntN(4) {
		case 0:
			s = strconv.FormatInt(int64(r.Uint64())>>r.IntN(64), 10)
		case 1:
			s = strconv.FormatFloat(randNum(r), 'g', -1, 64)
		case 2:
			s = strconv.FormatFloat(randNum(r), 'f', r.IntN(6), 64)
		default:
			s = strconv.FormatFloat(randNum(r), 'e', r.IntN(17), 64)
		}
		return s, gridCell{kind: "str", s: s}
	case 1: // nearly the text of a number
		s := wb.Pick(r, "12abc", "1 2", "0x1F", "1_000", "", "-", "+", ".", "e5", "NaN", "Inf", "infinity", "-inf", "1e", "--1", "1.2.3", " 7", "7 ", "12%", "$3", "1,000", "٣", "1e400", "0b1", "1p3", "nan")
		return s, gridCell{kind: map[bool]string{true: "str", false: ""}[s != ""], s: s}
	case 2:
		s := wb.Pick(r, append(append([]string{}, trueWords...), falseWords...)...)
		return s, gridCell{kind: "str", s: s}
	case 3: // whole floats
		f := float64(int64(r.Uint64()) >> r.IntN(64))
		return f, gridCell{kind: "float", f: f}
	case 4: // next to whole numbers
		f := float64(r.IntN(1000) - 500)
		f = math.Nextafter(f, wb.Pick(r, -1e9, 1e9))
		return f, gridCell{kind: "float", f: f}
	}
	for {
		v, m, _ := gridValue(r)
		if math.IsInf(m.f, 0) || math.IsNaN(m.f) {
			continue
		}
		return v, m
	}
}

func ratOf(v interface{}) *big.Rat {
	switch v := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(v)
	case float64:
		return new(big.Rat).SetFloat64(v)
	case bool:
		if v {
			return new(big.Rat).SetInt64(1)
		}
		return new(big.Rat)
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func caseC26(c *mon.Ctx) {
	r := c.Rand
	f := &commonxl.Formatter{}
	mac := r.IntN(2) == 0
	f.Mode1904(mac)
	types := []commonxl.CellType{commonxl.BlankCell, commonxl.IntegerCell, commonxl.FloatCell, commonxl.StringCell, commonxl.BooleanCell, commonxl.DateCell}
	for i := 0; i < 40; i++ {
		v, m := convValue(r)
		t := types[1+r.IntN(5)]
		cell := commonxl.NewCellWithType(v, t, f)
		plain := commonxl.NewCell(v)
		c.Count("conversions", 1)
		what := fmt.Sprintf("NewCellWithType(%T(%v), %v) is %v %T(%v)", v, v, t, cell.Type(), cell.Value(), cell.Value())
		c.Key(what)
		got, val := cell.Type(), cell.Value()
		if got == plain.Type() {
			c.Count("kept", 1)
			if fmt.Sprintf("%T %v", val, val) != fmt.Sprintf("%T %v", plain.Value(), plain.Value()) {
				c.Fatal("kept", "%s", what)
			}
		} else {
			c.Count("changed_type", 1)
			if got != t {
				c.Fatal("type", "%s", what)
			}
		}
		if ok := map[commonxl.CellType]bool{}; true {
			switch val.(type) {
			case int64:
				ok[commonxl.IntegerCell] = true
			case float64:
				ok[commonxl.FloatCell] = true
			case string:
				ok[commonxl.StringCell], ok[commonxl.BlankCell] = true, val == ""
			case bool:
				ok[commonxl.BooleanCell] = true
			case time.Time:
				ok[commonxl.DateCell] = true
			}
			if !ok[got] {
				c.Fatal("go-type", "%s", what)
			}
		}
		must := func(sig string, ok bool) {
			if !ok {
				c.Fatal(sig, "%s", what)
			}
		}
		switch m.kind {
		case "":
			must("blank", got == commonxl.BlankCell)
		case "int", "float":
			x := ratOf(plain.Value())
			switch t {
			case commonxl.IntegerCell, commonxl.FloatCell:
				must("number", ratOf(val) != nil && ratOf(val).Cmp(x) == 0)
				if x.IsInt() && x.Num().BitLen() < 53 {
					must("number-type", got == t)
				}
				if t == commonxl.IntegerCell && !x.IsInt() {
					must("number-type", got == commonxl.FloatCell)
				}
			case commonxl.BooleanCell:
				must("truth", val == (x.Sign() != 0))
			case commonxl.StringCell:
				c.Count("as_text", 1)
				s, _ := f.Apply(0, plain.Value())
				must("text", val == s)
			case commonxl.DateCell:
				lim := 2950000.0
				if mac {
					lim = 2950000 - 1462
				}
				if fx, _ := x.Float64(); fx >= 61 && fx < lim {
					c.Count("to_date", 1)
					base := time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
					if mac {
						base = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
					}
					day := math.Floor(fx)
					base = base.AddDate(0, 0, int(day))
					d, ok := val.(time.Time)
					must("date", ok && got == commonxl.DateCell)
					must("date", math.Abs(d.Sub(base).Seconds()-(fx-day)*86400) < 0.01)
				}
			}
		case "bool":
			switch t {
			case commonxl.IntegerCell, commonxl.FloatCell:
				must("bool-number", got == t && ratOf(val).Cmp(ratOf(m.b)) == 0)
			case commonxl.StringCell:
				must("bool-text", val == map[bool]string{true: "TRUE", false: "FALSE"}[m.b])
			}
		case "date":
			if t == commonxl.StringCell {
				must("date-text", got == t)
			} else {
				d, ok := val.(time.Time)
				must("date-kept", ok && d.Equal(m.t))
			}
		case "str":
			switch t {
			case commonxl.IntegerCell:
				n, err := strconv.ParseInt(m.s, 10, 64)
				if err == nil {
					c.Count("text_numbers", 1)
					must("text-int", val == n)
				} else if strings.Trim(m.s, "0123456789+-.eE") != "" {
					must("text-kept", val == m.s)
				}
			case commonxl.FloatCell:
				if x, ok := new(big.Rat).SetString(m.s); ok && strings.Trim(m.s, "0123456789+-.eE") == "" {
					if fx, _ := x.Float64(); !math.IsInf(fx, 0) {
						c.Count("text_numbers", 1)
						must("text-float", val == fx)
					}
				} else if _, err := strconv.ParseFloat(m.s, 64); err != nil {
					must("text-kept", val == m.s)
				}
			case commonxl.BooleanCell:
				if contains(trueWords, m.s) || contains(falseWords, m.s) {
					c.Count("words", 1)
					must("words", val == contains(trueWords, m.s))
				}
			case commonxl.StringCell, commonxl.DateCell:
				must("text", val == m.s && got == commonxl.StringCell)
			}
		}
	}
	// orders
	var cells []commonxl.Cell
	x := int64(r.Uint64()) >> r.IntN(64)
	if r.IntN(3) == 0 {
		x = wb.Pick[int64](r, 0, 1, 1<<53, 1<<53+1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, 1<<62+1)
	}
	for i := 0; i < 10; i++ {
		var v interface{}
		switch r.IntN(7) {
		case 0:
			v = r.IntN(2) == 0
		case 1:
			v = x
		case 2:
			v = x + int64(r.IntN(5)) - 2
		case 3:
			v = float64(x)
		case 4:
			v = math.Nextafter(float64(x), wb.Pick(r, math.Inf(1), math.Inf(-1)))
		case 5:
			v = wb.Pick[interface{}](r, 1e300, -1e300, math.Inf(1), math.Inf(-1), float64(1<<63), -float64(1<<63), int64(math.MaxInt64), int64(math.MinInt64), int64(0), int64(1), 0.5, int64(-1), int64(2), 2.0)
		case 6:
			v = float64(x) + r.Float64()*4 - 2
		}
		cells = append(cells, commonxl.NewCell(v))
	}
	for _, a := range cells {
		for _, b := range cells {
			want := lessValue(a.Value(), b.Value())
			c.Count("ordered", 1)
			if want {
				c.Count("less", 1)
			}
			if a.Less(b) != want {
				c.Fatal("less", "%T(%v) < %T(%v) is %v", a.Value(), a.Value(), b.Value(), b.Value(), !want)
			}
		}
	}
	t0 := time.Date(1900+r.IntN(300), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), 0, 0, 0, time.UTC)
	var ts []time.Time
	for i := 0; i < 3; i++ {
		t := t0.Add(time.Duration(r.Int64N(7)-3) * wb.Pick(r, 0, 1, time.Second, 24*time.Hour, 10000*time.Hour))
		if r.IntN(3) == 0 {
			t = t.In(time.FixedZone("z", 3600*(r.IntN(25)-12)))
		}
		ts = append(ts, t)
	}
	for _, a := range ts {
		for _, b := range ts {
			c.Count("dates_ordered", 1)
			ca, cb := commonxl.NewCell(a), commonxl.NewCell(b)
			if ca.Less(cb) != a.Before(b) || ca.Equal(cb) != a.Equal(b) {
				c.Fatal("dates", "%v < %v is %v, Equal %v", a, b, ca.Less(cb), ca.Equal(cb))
			}
		}
	}
}

// lessValue compares exactly.
func lessValue(a, b interface{}) bool {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	switch {
	case oka && math.IsInf(fa, 1) || okb && math.IsInf(fb, -1):
		return false
	case oka && math.IsInf(fa, -1):
		return true
	case okb && math.IsInf(fb, 1):
		return true
	}
	return ratOf(a).Cmp(ratOf(b)) < 0
}
