package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/pbnjay/grate/commonxl"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C22", Quick: 80000, Thorough: 2500000,
		Rule:      "each case runs a random history of Resize (growing, shrinking, far beyond the preallocation limit), Put (every supported Go type, with and without number formats), Set, SetURL, partial readings, and writes through everything that readings and clones return, on one sheet next to a second one, and reads the whole sheet back several times against a map of the last values written; further cases compare pairs of cells in both orders with exact rational arithmetic; distinct = distinct (history of operations, layout)",
		Assume:    []string{"unsigned integers beyond the int64 range are stored as the nearest float64", "numbers under a number format may change between integer and float, not in value", "the texts used are not merge markers"},
		MinEvents: map[string]int{"ops": 400000, "puts": 200000, "resizes": 30000, "sets": 20000, "urls": 20000, "outside": 5000, "cells_read": 1500000, "readings": 40000, "tampered": 200000, "sparse": 150, "clones": 50000, "pairs": 150000, "equal_pairs": 20000, "text_pairs": 40000},
		Case:      caseC22,
	})
}

type gridCell struct {
	kind string // int float str bool date
	i    int64
	f    float64
	s    string
	b    bool
	t    time.Time
	fmt  uint16
	link string
	what string
	set  bool // by Set: the format is not specified
}

// gridValue makes a value of any supported type. The returned function
// changes the memory the value was given in.
func gridValue(r *rand.Rand) (v interface{}, m gridCell, spoil func()) {
	spoil = func() {}
	ints := []int64{0, 1, -1, 7, 127, 128, 255, 256, -128, 32767, 32768, -32768, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}
	x := ints[r.IntN(len(ints))]
	if r.IntN(2) == 0 {
		x = int64(r.Uint64()) >> r.IntN(64)
	}
	m.kind = "int"
	switch r.IntN(19) {
	case 0:
		v, m.i = int(x), int64(int(x))
	case 1:
		v, m.i = int8(x), int64(int8(x))
	case 2:
		v, m.i = int16(x), int64(int16(x))
	case 3:
		v, m.i = int32(x), int64(int32(x))
	case 4:
		v, m.i = x, x
	case 5:
		v, m.i = uint8(x), int64(uint8(x))
	case 6:
		v, m.i = uint16(x), int64(uint16(x))
	case 7:
		v, m.i = uint32(x), int64(uint32(x))
	case 8, 9:
		u := uint64(x)
		v = u
		if r.IntN(2) == 0 {
			v = uint(u)
		}
		m.i = int64(u)
		if u > math.MaxInt64 {
			m.kind, m.f = "float", float64(u)
		}
	case 10:
		f := float32(randNum(r))
		v, m.kind, m.f = f, "float", float64(f)
	case 11, 12:
		f := randNum(r)
		switch r.IntN(8) {
		case 0:
			f = wb.Pick(r, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 1e15, 1e16, 9007199254740993, 0.1, 1<<63, -(1 << 63), 1<<64)
		case 1:
			f = math.Float64frombits(r.Uint64())
			if math.IsNaN(f) || math.IsInf(f, 0) {
				f = 0.5
			}
		}
		v, m.kind, m.f = f, "float", f
	case 13, 14:
		s := gridText(r)
		v, m.kind, m.s = s, "str", s
	case 15:
		s := gridText(r)
		if r.IntN(6) == 0 {
			s = string(randBytes(r, 1+r.IntN(12)))
		}
		b := []byte(s)
		v, m.kind, m.s = b, "str", s
		spoil = func() {
			for i := range b {
				b[i] = '#'
			}
		}
	case 16:
		s := gridText(r)
		if r.IntN(2) == 0 {
			u := utf16.Encode([]rune(s))
			v = u
			spoil = func() {
				for i := range u {
					u[i] = '#'
				}
			}
		} else {
			u := []rune(s)
			v = u
			spoil = func() {
				for i := range u {
					u[i] = '#'
				}
			}
		}
		m.kind, m.s = "str", s
	case 17:
		b := r.IntN(2) == 0
		v, m.kind, m.b = b, "bool", b
	case 18:
		t := time.Date(1900+r.IntN(300), time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1000)*1e6, time.UTC)
		if r.IntN(4) == 0 {
			t = t.In(time.FixedZone("x", 3600*(r.IntN(25)-12))).Add(time.Duration(r.IntN(1e6)))
		}
		v, m.kind, m.t = t, "date", t
	}
	if m.kind == "str" && m.s == "" {
		m.kind = ""
	}
	m.what = fmt.Sprintf("%T %v", v, v)
	return
}

func gridText(r *rand.Rand) string {
	if r.IntN(12) == 0 {
		return ""
	}
	for {
		s := randText(r, 20)
		if strings.ContainsAny(s, "→⇥↓⤓") {
			continue
		}
		return strings.ToValidUTF8(s, "?")
	}
}

type gridSheet struct {
	s          *commonxl.Sheet
	cells      map[pos]gridCell
	rows, cols int // that must be there
	trace      []string
}

func caseC22(c *mon.Ctx) {
	r := c.Rand
	if c.Index%4 == 3 {
		pairs(c)
		return
	}
	f := &commonxl.Formatter{}
	codes := map[uint16]string{}
	if r.IntN(2) == 0 {
		for id, code := range map[uint16]string{164: "0.000", 165: "#,##0.0", 166: "0", 167: "0.0%"} {
			c.Must(f.Add(id, code))
			codes[id] = code
		}
	}
	g := &gridSheet{s: &commonxl.Sheet{Formatter: f}, cells: map[pos]gridCell{}}
	// a second sheet must not be affected
	other := &gridSheet{s: &commonxl.Sheet{Formatter: f}, cells: map[pos]gridCell{}}
	h, w := 1+r.IntN(12), 1+r.IntN(12)
	sparse := r.IntN(60) == 0
	if sparse {
		h, w = wb.Pick(r, 1100, 70000, 4, 20), wb.Pick(r, 20, 1000, 16384)
		if h*w > 1<<22 {
			h, w = 1030, 1024
		}
		c.Count("sparse", 1)
	}
	if r.IntN(4) > 0 {
		a, b := 1+r.IntN(h), 1+r.IntN(w)
		if sparse {
			a, b = h, w
		}
		g.resize(c, a, b)
	}
	ops := 5 + r.IntN(60)
	for i := 0; i < ops; i++ {
		t := g
		if r.IntN(10) == 0 {
			t = other
		}
		row, col := r.IntN(h), r.IntN(w)
		if r.IntN(30) == 0 && !sparse {
			row, col = r.IntN(3*h+3), r.IntN(3*w+3)
		}
		c.Count("ops", 1)
		switch op := r.IntN(20); {
		case op < 10:
			t.put(c, r, row, col, codes)
		case op < 12:
			a, b := r.IntN(2*h+2), r.IntN(2*w+2)
			switch {
			case sparse:
				a, b = r.IntN(h+1), r.IntN(w+1)
			case r.IntN(10) == 0:
				a, b = -r.IntN(3), r.IntN(3)
			case r.IntN(40) == 0:
				a, b = 1100, 1000 // beyond the limit
				if r.IntN(2) == 0 {
					a, b = 5, 3000
				}
			}
			t.resize(c, a, b)
		case op < 14:
			t.set(c, r, row, col)
		case op < 16:
			t.url(c, r, row, col)
		case op == 16:
			t.tamper(c, r)
		case op == 17:
			t.s.IsEmpty()
			for k, n := 0, r.IntN(4); k < n && t.s.Next(); k++ {
				t.s.Strings()
			}
		case op == 18 && (!sparse || r.IntN(6) == 0):
			t.check(c, r)
		}
	}
	g.check(c, r)
	if r.IntN(3) == 0 {
		g.tamper(c, r)
		g.check(c, r)
	}
	other.check(c, r)
	c.Note("%d operations on %dx%d: %s", len(g.trace), g.rows, g.cols, strings.Join(g.trace[max(0, len(g.trace)-5):], "; "))
	c.Key(strings.Join(g.trace, ";"))
}

func (g *gridSheet) say(f string, a ...interface{}) {
	g.trace = append(g.trace, fmt.Sprintf(f, a...))
}

func (g *gridSheet) fail(c *mon.Ctx, sig, f string, a ...interface{}) {
	c.Artifact("history.txt", []byte(strings.Join(g.trace, "\n")))
	c.Fatal(sig, "%s\nlast operations: %s", fmt.Sprintf(f, a...), strings.Join(g.trace[max(0, len(g.trace)-15):], "; "))
}

func (g *gridSheet) resize(c *mon.Ctx, a, b int) {
	g.say("Resize(%d,%d)", a, b)
	g.s.Resize(a, b)
	g.rows, g.cols = max(g.rows, a, 1), max(g.cols, b, 1)
	if g.s.NumRows < g.rows || g.s.NumCols < g.cols {
		g.fail(c, "size", "the sheet has %dx%d cells, less than %dx%d", g.s.NumRows, g.s.NumCols, g.rows, g.cols)
	}
	c.Count("resizes", 1)
}

func (g *gridSheet) put(c *mon.Ctx, r *rand.Rand, row, col int, codes map[uint16]string) {
	v, m, spoil := gridValue(r)
	if r.IntN(3) == 0 {
		switch m.kind {
		case "int", "float":
			m.fmt = wb.Pick[uint16](r, 1, 2, 3, 4, 9, 10, 11, 37, 38, 48, 999)
			if len(codes) > 0 {
				m.fmt = wb.Pick[uint16](r, m.fmt, 164, 165, 166, 167)
			}
		case "str":
			m.fmt = wb.Pick[uint16](r, 1, 2, 3, 9, 12, 14, 37, 43, 49)
		case "bool":
			m.fmt = wb.Pick[uint16](r, 1, 2, 3, 9, 12, 14, 37, 43, 49)
		case "":
			m.fmt = wb.Pick[uint16](r, 1, 9, 14, 22, 49)
		case "date":
			m.fmt = wb.Pick[uint16](r, 14, 15, 16, 17, 18, 19, 20, 21, 22)
		}
	}
	g.say("Put(%d,%d,%s,%d)", row, col, q(m.what), m.fmt)
	g.s.Put(row, col, v, m.fmt)
	spoil()
	g.cells[pos{row, col}] = m
	g.rows, g.cols = max(g.rows, row+1), max(g.cols, col+1)
	c.Count("puts", 1)
}

func (g *gridSheet) outside(row, col int) bool {
	return row >= g.s.NumRows || col >= g.s.NumCols
}

func (g *gridSheet) set(c *mon.Ctx, r *rand.Rand, row, col int) {
	if r.IntN(12) == 0 {
		row, col = wb.Pick(r, -1, row, g.s.NumRows, g.s.NumRows+5), wb.Pick(r, -1, g.s.NumCols, col)
	}
	s := gridText(r)
	if s == "" {
		s = "set"
	}
	g.say("Set(%d,%d,%s)", row, col, q(s))
	g.s.Set(row, col, s)
	c.Count("sets", 1)
	if row < 0 || col < 0 || g.outside(row, col) {
		c.Count("outside", 1)
		return
	}
	m := gridCell{kind: "str", s: s, what: "Set " + s, set: true, fmt: g.cells[pos{row, col}].fmt}
	g.cells[pos{row, col}] = m
}

func (g *gridSheet) url(c *mon.Ctx, r *rand.Rand, row, col int) {
	out := r.IntN(12) == 0
	if out {
		row, col = wb.Pick(r, -1, row, g.s.NumRows, g.s.NumRows+5), wb.Pick(r, -1, g.s.NumCols, col)
	}
	m := g.cells[pos{row, col}]
	if m.kind != "" && m.kind != "str" {
		return
	}
	l := fmt.Sprintf("http://h%d.example/p?q=%d#f", r.IntN(100), r.IntN(100))
	g.say("SetURL(%d,%d,%s)", row, col, l)
	g.s.SetURL(row, col, l)
	c.Count("urls", 1)
	if row < 0 || col < 0 || g.outside(row, col) {
		c.Count("outside", 1)
		return
	}
	m.link = l
	g.cells[pos{row, col}] = m
}

// tamper writes through all that readings return.
func (g *gridSheet) tamper(c *mon.Ctx, r *rand.Rand) {
	g.say("tamper")
	g.s.CurRow = 0
	for n := 0; n < 40 && g.s.Next(); n++ {
		if g.s.NumCols > 200 && n > 3 {
			break
		}
		a, b, d, raw := g.s.Strings(), g.s.Types(), g.s.Formats(), g.s.Raw()
		for i := range a {
			a[i] = "#"
		}
		for i := range b {
			b[i] = "#"
		}
		for i := range d {
			d[i] = "#"
		}
		for i := range raw {
			c.Count("tampered", 1)
			cl := raw[i].Clone()
			before := fmt.Sprint(raw[i])
			switch r.IntN(4) {
			case 0:
				cl.SetURL("http://tampered.example/")
			case 1:
				if len(cl) >= 2 {
					cl.SetFormatNumber(uint16(r.IntN(50)))
				}
			default:
				for k := range cl {
					cl[k] = "#"
				}
			}
			c.Count("clones", 1)
			if fmt.Sprint(raw[i]) != before {
				g.fail(c, "clone", "changing a clone of %s makes it %v", before, raw[i])
			}
			if len(raw[i]) >= 2 {
				switch r.IntN(3) {
				case 0:
					raw[i].SetURL("http://tampered.example/")
				case 1:
					raw[i].SetFormatNumber(uint16(1 + r.IntN(50)))
				}
			}
			for k := range raw[i] {
				raw[i][k] = "#"
			}
			if r.IntN(2) == 0 {
				raw[i] = append(raw[i], "#", "#", "#")
			}
		}
		if r.IntN(3) == 0 {
			g.s.IsEmpty()
		}
	}
}

// check reads the whole sheet.
func (g *gridSheet) check(c *mon.Ctx, r *rand.Rand) {
	c.Count("readings", 1)
	byRow := map[int][]int{}
	data := false
	for p, m := range g.cells {
		byRow[p.R] = append(byRow[p.R], p.C)
		data = data || m.kind != "" || m.link != ""
	}
	for _, cs := range byRow {
		sort.Ints(cs)
	}
	if e := g.s.IsEmpty(); e == data {
		g.fail(c, "empty", "IsEmpty is %v", e)
	}
	g.s.CurRow = 0
	n := 0
	for ; g.s.Next(); n++ {
		if n > g.rows+10 {
			g.fail(c, "rows", "more than %d rows", n)
		}
		cols := byRow[n]
		full := g.s.NumCols <= 300
		if !full && len(cols) == 0 && n%97 > 0 {
			continue
		}
		st, ty, fo, raw := g.s.Strings(), g.s.Types(), g.s.Formats(), g.s.Raw()
		if len(st) != len(ty) || len(st) != len(fo) || len(st) != len(raw) || len(st) < g.cols && n < g.rows {
			g.fail(c, "width", "row %d: %d strings, %d types, %d formats, %d raw cells, %d columns", n, len(st), len(ty), len(fo), len(raw), g.cols)
		}
		c.Count("cells_read", len(st))
		for i := range st {
			m, ok := g.cells[pos{n, i}]
			if !ok || m.kind == "" && m.link == "" {
				if st[i] != "" || ty[i] != "blank" {
					g.fail(c, "blank", "cell %d,%d was not written (or blank), but is %s %s", n, i, ty[i], q(st[i]))
				}
				if !ok && (fo[i] != "General" || raw[i].Value() != "") {
					g.fail(c, "blank", "cell %d,%d was not written, but has format %q and value %v", n, i, fo[i], raw[i].Value())
				}
				if ok && !m.set && m.fmt != raw[i].FormatNo() {
					g.fail(c, "format", "blank cell %d,%d has format %d, not %d", n, i, raw[i].FormatNo(), m.fmt)
				}
				continue
			}
			if d := g.compare(m, st[i], ty[i], raw[i]); d != "" {
				g.fail(c, "cell", "cell %d,%d, last written as %s with format %d: %s", n, i, q(m.what), m.fmt, d)
			}
		}
		if len(cols) > 0 {
			// what Scan delivers
			dst := make([]interface{}, len(ty))
			for i := range ty {
				dst[i] = dest(ty[i])
			}
			bad := false
			for i := range ty {
				if ty[i] == "hyperlink" && g.cells[pos{n, i}].kind != "" && g.cells[pos{n, i}].kind != "str" {
					bad = true
				}
			}
			if err := g.s.Scan(dst...); err != nil && !bad {
				g.fail(c, "scan", "row %d: Scan: %v", n, err)
			}
			for _, i := range cols {
				m := g.cells[pos{n, i}]
				got := deref(dst[i])
				ok := true
				switch m.kind {
				case "int":
					ok = exactNum(got, m.i, 0, true)
				case "float":
					ok = exactNum(got, 0, m.f, false)
				case "str":
					ok = got == m.s
				case "bool":
					ok = got == m.b
				case "date":
					t, isT := got.(time.Time)
					ok = isT && t.Equal(m.t)
				case "":
					ok = got == ""
				}
				if !ok && !bad {
					g.fail(c, "scan", "cell %d,%d, last written as %s: Scan gives %T %v", n, i, q(m.what), got, got)
				}
			}
		}
	}
	if n < g.rows {
		g.fail(c, "rows", "%d rows, not %d", n, g.rows)
	}
}

// exactNum tells whether got is the number, as an int64 or as a float64.
func exactNum(got interface{}, i int64, f float64, isInt bool) bool {
	switch x := got.(type) {
	case int64:
		if isInt {
			return x == i
		}
		return new(big.Float).SetInt64(x).Cmp(new(big.Float).SetFloat64(f)) == 0
	case float64:
		if isInt {
			return new(big.Float).SetInt64(i).Cmp(new(big.Float).SetFloat64(x)) == 0
		}
		return x == f
	}
	return false
}

func (g *gridSheet) compare(m gridCell, st, ty string, raw commonxl.Cell) string {
	if m.link != "" {
		if ty != "hyperlink" {
			return "the type is " + ty + ", not hyperlink"
		}
		u, ok := raw.URL()
		if !ok || u.String() != m.link {
			return fmt.Sprintf("the link is %v, not %s", u, m.link)
		}
		if m.kind == "" {
			return ""
		}
	} else if u, ok := raw.URL(); ok {
		return fmt.Sprintf("there is a link to %v", u)
	}
	if !m.set && raw.FormatNo() != m.fmt {
		return fmt.Sprintf("the format is %d, not %d", raw.FormatNo(), m.fmt)
	}
	v := raw.Value()
	switch m.kind {
	case "int", "float":
		if ty != "integer" && ty != "float" || m.fmt == 0 && (ty == "integer") != (m.kind == "int") {
			return "the type is " + ty + ", not " + m.kind
		}
		if !exactNum(v, m.i, m.f, m.kind == "int") {
			return fmt.Sprintf("the value is %T %v", v, v)
		}
		if m.fmt == 0 {
			if m.kind == "int" && st != strconv.FormatInt(m.i, 10) && !generalText(float64(m.i))(st) {
				return "the text is " + q(st)
			}
			if m.kind == "float" && !generalText(m.f)(st) && math.Abs(m.f) > 1e-300 {
				return "the text is " + q(st)
			}
		}
	case "str":
		if ty != "string" && m.link == "" {
			return "the type is " + ty + ", not string"
		}
		if v != m.s || st != m.s {
			return fmt.Sprintf("the value is %T %v, the text %s", v, v, q(st))
		}
	case "bool":
		if ty != "boolean" {
			return "the type is " + ty + ", not boolean"
		}
		if v != m.b || !strings.EqualFold(st, fmt.Sprint(m.b)) {
			return fmt.Sprintf("the value is %T %v, the text %s", v, v, q(st))
		}
	case "date":
		t, ok := v.(time.Time)
		if ty != "date" || !ok || !t.Equal(m.t) {
			return fmt.Sprintf("the type is %s, the value %T %v", ty, v, v)
		}
	}
	return ""
}

// pairs compares cells with each other.
func pairs(c *mon.Ctx) {
	r := c.Rand
	type val struct {
		cell commonxl.Cell
		rat  *big.Rat // the number, if it is one
		nan  bool
		text bool
		what string
	}
	var last *val
	mk := func() *val {
		x := &val{}
		if last != nil && last.rat != nil && r.IntN(2) == 0 {
			// the same number, or one next to it, as something else
			n := new(big.Rat).Set(last.rat)
			if r.IntN(3) == 0 {
				n.Add(n, big.NewRat(wb.Pick[int64](r, 1, -1, 1, -1, 1000), wb.Pick[int64](r, 1, 1, 1024)))
			}
			f, _ := n.Float64()
			switch k := r.IntN(4); {
			case k == 0 && n.IsInt() && n.Num().IsInt64():
				x.cell, x.rat = commonxl.NewCell(n.Num().Int64()), n
			case k == 1 && n.IsInt() && n.Num().IsInt64():
				x.cell, x.rat, x.text = commonxl.NewCell(n.Num().String()), n, true
			case k == 2:
				x.cell, x.rat = commonxl.NewCell(f), new(big.Rat).SetFloat64(f)
			default:
				t := strconv.FormatFloat(f, wb.Pick[byte](r, 'g', 'e', 'f'), -1, 64)
				x.cell, x.rat, x.text = commonxl.NewCell(t), new(big.Rat).SetFloat64(f), true
				if n, err := strconv.ParseInt(t, 10, 64); err == nil {
					x.rat = new(big.Rat).SetInt64(n) // its exact value
				}
			}
			if x.rat == nil {
				x.rat, x.cell, x.text = new(big.Rat), commonxl.NewCell(0), false
			}
			x.what = fmt.Sprintf("%T %v", x.cell.Value(), x.cell.Value())
			return x
		}
		v, m, _ := gridValue(r)
		x.cell = commonxl.NewCell(v)
		x.what = m.what
		switch m.kind {
		case "int":
			x.rat = new(big.Rat).SetInt64(m.i)
		case "float":
			x.rat = new(big.Rat).SetFloat64(m.f)
		case "str":
			x.text = true
		}
		if r.IntN(60) == 0 {
			x.cell, x.nan, x.what, x.text = commonxl.NewCell(math.NaN()), true, "NaN", false
			x.rat = nil
		}
		if x.rat != nil && r.IntN(4) == 0 {
			x.cell.SetFormatNumber(wb.Pick[uint16](r, 1, 2, 14))
		}
		return x
	}
	for i := 0; i < 100; i++ {
		a := mk()
		last = a
		b := mk()
		e1, e2 := a.cell.Equal(b.cell), b.cell.Equal(a.cell)
		c.Count("pairs", 1)
		numeric := a.rat != nil && !a.text || b.rat != nil && !b.text || a.nan || b.nan
		if !numeric {
			continue
		}
		if e1 != e2 {
			c.Fatal("symmetry", "(%s).Equal(%s) is %v, the other way around %v", a.what, b.what, e1, e2)
		}
		if a.nan && b.rat != nil && e1 {
			c.Fatal("equal", "NaN equals %s", b.what)
		}
		if a.rat != nil && b.rat != nil {
			want := a.rat.Cmp(b.rat) == 0
			if want {
				c.Count("equal_pairs", 1)
			}
			if a.text || b.text {
				c.Count("text_pairs", 1)
				// a text beyond the integers is a floating point number
				if fa, _ := a.rat.Float64(); !want {
					if fb, _ := b.rat.Float64(); fa == fb {
						continue
					}
				}
			}
			if e1 != want {
				c.Fatal("equal", "(%s).Equal(%s) is %v", a.what, b.what, e1)
			}
		} else if (a.text || b.text) && (a.rat != nil || b.rat != nil) {
			t := a
			if b.text {
				t = b
			}
			if s, ok := t.cell.Value().(string); ok && !looksNumeric(s) && e1 {
				c.Fatal("equal", "(%s).Equal(%s) is true", a.what, b.what)
			}
			c.Count("text_pairs", 1)
		}
	}
	c.Key("pairs", c.Index)
}
