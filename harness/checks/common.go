// Package checks holds one monitored workload per property.
package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/pbnjay/grate"
	_ "github.com/pbnjay/grate/simple"
	_ "github.com/pbnjay/grate/xls"
	_ "github.com/pbnjay/grate/xlsx"

	"verif/harness/mon"
	"verif/harness/wb"
)

type pos struct{ R, C int }

// Row is one row as the accessors reported it.
type Row struct {
	N     int // number of columns
	Blank bool
	S     []string
	T     []string
	F     []string
	V     []interface{}
	SErr  error
}

// maxIter bounds rows*cols read back from one sheet.
const maxIter = 4 << 20

func allBlank(s, t []string) bool {
	for _, x := range s {
		if x != "" {
			return false
		}
	}
	for _, x := range t {
		if x != "blank" {
			return false
		}
	}
	return true
}

// dest makes a Scan destination for a type name.
func dest(t string) interface{} {
	switch t {
	case "boolean":
		return new(bool)
	case "integer":
		return new(int64)
	case "float":
		return new(float64)
	case "date":
		return new(time.Time)
	}
	return new(string)
}

func deref(d interface{}) interface{} {
	switch v := d.(type) {
	case *bool:
		return *v
	case *int64:
		return *v
	case *float64:
		return *v
	case *time.Time:
		return *v
	case *string:
		return *v
	case *int:
		return *v
	}
	return nil
}

// readRow reads the current row with every accessor.
func readRow(col grate.Collection) Row {
	r := Row{S: col.Strings(), T: col.Types(), F: col.Formats()}
	r.N = len(r.S)
	r.Blank = allBlank(r.S, r.T)
	if r.Blank && len(r.T) == r.N && len(r.F) == r.N {
		return Row{N: r.N, Blank: true}
	}
	args := make([]interface{}, len(r.T))
	for i, t := range r.T {
		args[i] = dest(t)
	}
	r.SErr = col.Scan(args...)
	for _, a := range args {
		r.V = append(r.V, deref(a))
	}
	return r
}

// readAll reads the rest of a collection.
func readAll(col grate.Collection) (rows []Row, capped bool) {
	n := 0
	for col.Next() {
		r := readRow(col)
		rows = append(rows, r)
		n += r.N + 8
		if n > maxIter {
			return rows, true
		}
	}
	return rows, false
}

// Exp is what a cell must report.
type Exp struct {
	Text  func(string) bool // nil: not checked
	Want  string            // description of the text wanted
	Types []string          // allowed type names, nil: not checked
	Val   interface{}       // string, bool, float64 (numeric) or nil
	Fmt   []string          // allowed format names, nil: not checked
}

func exact(s string) func(string) bool { return func(t string) bool { return t == s } }

// generalText accepts the General rendering of v.
func generalText(v float64) func(string) bool {
	return func(t string) bool {
		x, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return false
		}
		if x == v {
			return true
		}
		if len(strconv.FormatFloat(math.Abs(v), 'f', -1, 64)) <= 11 {
			return false
		}
		return math.Abs(x-v) <= 5.0001e-6*math.Abs(v)
	}
}

func numEq(got interface{}, want float64) bool {
	switch g := got.(type) {
	case int64:
		return float64(g) == want && int64(want) == g
	case float64:
		return g == want
	case int:
		return float64(g) == want
	}
	return false
}

var numTypes = []string{"integer", "float"}

// fmtNames are the acceptable names of a format.
func fmtNames(f wb.Fmt) []string {
	if f.ID == 0 {
		return []string{"General"}
	}
	if f.Code == "" {
		if s, ok := builtinCodes[f.ID]; ok {
			return []string{s}
		}
		return nil
	}
	if strings.EqualFold(f.Code, "general") {
		return []string{f.Code, "General"}
	}
	return []string{f.Code}
}

// builtinCodes are the locale independent built-in formats (ECMA-376 18.8.30).
var builtinCodes = map[int]string{
	0: "General", 1: "0", 2: "0.00", 3: "#,##0", 4: "#,##0.00", 9: "0%", 10: "0.00%", 11: "0.00E+00",
	12: "# ?/?", 13: "# ??/??", 14: "mm-dd-yy", 15: "d-mmm-yy", 16: "d-mmm", 17: "mmm-yy",
	18: "h:mm AM/PM", 19: "h:mm:ss AM/PM", 20: "h:mm", 21: "h:mm:ss", 22: "m/d/yy h:mm",
	45: "mm:ss", 46: "[h]:mm:ss", 48: "##0.0E+0", 49: "@",
}

// expCell is the expectation for a stored cell whose format is General or
// (numbers, text) any of the given formats.
func expCell(w *wb.Workbook, c *wb.Cell) (Exp, bool) {
	f := wb.Fmt{}
	if c.Fmt < len(w.Fmts) {
		f = w.Fmts[c.Fmt]
	}
	e := Exp{Fmt: fmtNames(f)}
	switch c.Kind {
	case wb.Blank:
		return e, false
	case wb.Num, wb.FNum:
		e.Val = c.Num
		e.Types = numTypes
		if f.ID == 0 {
			e.Text, e.Want = generalText(c.Num), fmt.Sprint(c.Num)
		}
	case wb.Str, wb.FStr:
		if c.Str == "" {
			return e, false
		}
		e.Text, e.Want = exact(c.Str), c.Str
		e.Types = []string{"string"}
		e.Val = c.Str
	case wb.Bool, wb.FBool:
		e.Val = c.Bool
		e.Types = []string{"boolean"}
		e.Text = func(t string) bool { return strings.EqualFold(t, fmt.Sprint(c.Bool)) }
		e.Want = fmt.Sprint(c.Bool)
	case wb.Err, wb.FErr:
		e.Text, e.Want = exact(wb.ErrText[c.Err]), wb.ErrText[c.Err]
		e.Types = []string{"string"}
		e.Val = wb.ErrText[c.Err]
	}
	return e, true
}

// expSheet builds the expectations of a sheet without merges and links.
func expSheet(w *wb.Workbook, s *wb.Sheet) map[pos]Exp {
	m := map[pos]Exp{}
	for i := range s.Cells {
		c := &s.Cells[i]
		if e, ok := expCell(w, c); ok {
			m[pos{c.Row, c.Col}] = e
		}
	}
	return m
}

func in(s string, xs []string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func q(s string) string {
	if len(s) > 120 {
		s = s[:60] + "..." + s[len(s)-40:]
	}
	return strconv.QuoteToASCII(s)
}

// compareSheet reports every difference between rows and the expectations.
func compareSheet(c *mon.Ctx, label string, rows []Row, want map[pos]Exp) {
	for p, e := range want {
		if p.R >= len(rows) || p.C >= rows[p.R].N {
			n := 0
			if p.R < len(rows) {
				n = rows[p.R].N
			}
			c.Bad("missing", "%s %s: cell %q is missing (%d rows, %d columns in this row)", label, wb.Ref(p.R, p.C), e.Want, len(rows), n)
			return
		}
	}
	for r, row := range rows {
		if row.SErr != nil {
			c.Bad("scanerr", "%s row %d: Scan with the reported types failed: %v types=%v", label, r+1, row.SErr, row.T)
			return
		}
		for k := 0; k < row.N; k++ {
			e, ok := want[pos{r, k}]
			if !ok {
				if row.Blank {
					continue
				}
				if row.S[k] != "" || row.T[k] != "blank" || row.V[k] != "" {
					c.Bad("extra", "%s %s: must be blank, got %s type %s value %v", label, wb.Ref(r, k), q(row.S[k]), row.T[k], row.V[k])
					return
				}
				continue
			}
			if row.Blank {
				c.Bad("lost", "%s %s: want %s, got a blank row", label, wb.Ref(r, k), q(e.Want))
				return
			}
			c.Count("cells", 1)
			if e.Text != nil && !e.Text(row.S[k]) {
				c.Bad("text", "%s %s: want text %s, got %s (type %s)", label, wb.Ref(r, k), q(e.Want), q(row.S[k]), row.T[k])
			}
			if e.Types != nil && !in(row.T[k], e.Types) {
				c.Bad("type", "%s %s: want type %v, got %s (text %s)", label, wb.Ref(r, k), e.Types, row.T[k], q(row.S[k]))
			}
			if e.Fmt != nil && !in(row.F[k], e.Fmt) {
				c.Bad("format", "%s %s: want format %q, got %q", label, wb.Ref(r, k), e.Fmt, row.F[k])
			}
			switch v := e.Val.(type) {
			case float64:
				if !numEq(row.V[k], v) {
					c.Bad("value", "%s %s: want value %v (%x), Scan gives %T %v", label, wb.Ref(r, k), v, v, row.V[k], row.V[k])
				}
			case string:
				if row.V[k] != interface{}(v) {
					c.Bad("value", "%s %s: want value %s, Scan gives %s", label, wb.Ref(r, k), q(v), q(fmt.Sprint(row.V[k])))
				}
			case bool:
				if row.V[k] != interface{}(v) {
					c.Bad("value", "%s %s: want value %v, Scan gives %v", label, wb.Ref(r, k), v, row.V[k])
				}
			case time.Time:
				g, ok := row.V[k].(time.Time)
				if !ok || g.Sub(v).Abs() > 500*time.Microsecond {
					c.Bad("value", "%s %s: want time %v, Scan gives %v", label, wb.Ref(r, k), v, row.V[k])
				}
			}
			if c.NBad() > 0 {
				return
			}
		}
	}
}

// mustOpen opens a file that is well-formed.
func mustOpen(c *mon.Ctx, path string) grate.Source {
	src, err := grate.Open(path)
	if err != nil {
		c.Fatal("open", "a well-formed file does not open: %v", err)
	}
	return src
}

func mustGet(c *mon.Ctx, src grate.Source, name string) grate.Collection {
	col, err := src.Get(name)
	if err != nil {
		c.Fatal("get", "Get(%s) of a well-formed file: %v", q(name), err)
	}
	if col == nil {
		c.Fatal("get", "Get(%s) returns nil without an error", q(name))
	}
	return col
}

// ---- generation

var rangesRunes = [][2]rune{
	{0x20, 0x7E}, {0x20, 0x7E}, {0xA0, 0xFF}, {0x100, 0x17F}, {0x370, 0x3FF}, {0x400, 0x4FF},
	{0x3041, 0x30FF}, {0x4E00, 0x9FFF}, {0xAC00, 0xD7A3}, {0xE000, 0xF8FF}, {0x1F300, 0x1FAFF}, {0x10000, 0x1FFFD}, {0x20000, 0x2A6D6},
}

var oddStrings = []string{
	" ", "  lead", "trail ", "\ttab", "a\nb", "a\r\nb", "\n", "00123", "1e5", "1.0", "TRUE", "false", "NaN", "inf", "-Inf", "0x1p4",
	"=A1+B1", "'quoted", "\"q\"", "&amp;", "<b>&</b>", "]]>", "a]]>b", "#N/A", "-", "%", "12%", "1,234", "2020-01-01", "→x", "é", "ÿ", "Ā",
	"\u00a0", "\u200b", "\ufeffbom", "e\u0301", "😀", "👨‍👩‍👧", "\U0010FFFD", "ﬀ", "ß", "İ", "\\", "\\n", "%d%s", "_x0041_", "_x000D_", "_x005F_x0041_", "a_x00e9_x00E9_", "__x0020__", "_xD83D__xDE00_", "_xZZZZ_", "_X0041_", "_x41_", "_x0041", "a\x0bb", "\x01\x1f", "_x", "_x00", "x0041_", "yes", "no", "t", "f",
}

var markers = map[string]bool{grate.ContinueColumnMerged: true, grate.EndColumnMerged: true, grate.ContinueRowMerged: true, grate.EndRowMerged: true}

func randRunes(r *rand.Rand, n int) string {
	var b strings.Builder
	rg := rangesRunes[r.IntN(len(rangesRunes))]
	mix := r.IntN(3) == 0
	for i := 0; i < n; i++ {
		if mix {
			rg = rangesRunes[r.IntN(len(rangesRunes))]
		}
		c := rg[0] + rune(r.IntN(int(rg[1]-rg[0]+1)))
		if c&0xFFFF >= 0xFFFE {
			c = 'x'
		}
		b.WriteRune(c)
	}
	return b.String()
}

// randText makes a storable string of at most max UTF-16 units.
func randText(r *rand.Rand, max int) string {
	var s string
	switch r.IntN(10) {
	case 0, 1, 2:
		s = oddStrings[r.IntN(len(oddStrings))]
	case 3:
		s = oddStrings[r.IntN(len(oddStrings))] + randRunes(r, r.IntN(6)) + oddStrings[r.IntN(len(oddStrings))]
	case 4:
		s = randRunes(r, 20+r.IntN(200))
	case 5:
		s = strconv.Itoa(r.IntN(100000)) + randRunes(r, r.IntN(3))
	default:
		s = randRunes(r, 1+r.IntN(12))
	}
	return fixText(s, max)
}

func fixText(s string, max int) string {
	if markers[s] {
		s += "."
	}
	for len(utf16.Encode([]rune(s))) > max {
		rs := []rune(s)
		s = string(rs[:len(rs)*max/(len(rs)+max/2+1)])
	}
	return s
}

// randNum makes a finite number.
func randNum(r *rand.Rand) float64 {
	switch r.IntN(12) {
	case 0:
		return float64(r.IntN(3) - 1)
	case 1:
		return float64(r.IntN(2000) - 1000)
	case 2:
		return float64(r.Int64N(1<<53)) * float64(1-2*r.IntN(2))
	case 3:
		return float64(r.IntN(2000000)-1000000) / 100
	case 4:
		return r.NormFloat64()
	case 5:
		return math.Ldexp(r.Float64()+0.5, r.IntN(100)-50)
	case 6:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", r.IntN(10), r.IntN(1000000), r.IntN(40)-20), 64)
		return f
	case 7:
		return [...]float64{0.1, 1e-7, 1e10, 1e11, 99999999999, 100000000000, 123456789012345, 0.5, -0.5, 1e15, 1e20, 1e100, 1e-100, 1e300, 5e-324, math.MaxFloat64, 1 << 53, 1<<53 + 2, -(1 << 53), 4294967296, 2147483648, -2147483649, 1e-5, 12345678901.5, math.Copysign(0, -1)}[r.IntN(25)]
	case 8:
		return float64(r.IntN(1<<30)-1<<29) / 100
	case 9:
		return float64(int32(r.Uint32()))
	case 10:
		return math.Float64frombits(uint64(r.Uint32()&0x7FFFFFFC)<<32&^(0x7FF<<52) | uint64(1023+r.IntN(60)-30)<<52)
	}
	return float64(r.IntN(100000)) + float64(r.IntN(1000))/1000
}

// rkValue decodes an RK number by the specification (MS-XLS 2.5.217).
func rkValue(rk uint32) float64 {
	var f float64
	if rk&2 != 0 {
		f = float64(int32(rk) >> 2)
	} else {
		f = math.Float64frombits(uint64(rk&^3) << 32)
	}
	if rk&1 != 0 {
		f /= 100
	}
	return f
}

func randRK(r *rand.Rand) uint32 {
	for {
		rk := r.Uint32()
		switch r.IntN(4) {
		case 0:
			rk = uint32(int32(r.IntN(2000)-1000))<<2 | 2 | uint32(r.IntN(2))
		case 1: // an ordinary decimal, floating
			rk = uint32(math.Float64bits(float64(r.IntN(4000)-2000)/8)>>32)&^3 | uint32(r.IntN(2))
		case 2:
			rk = [...]uint32{0x00000002, 0x00000003, 0xFFFFFFFE, 0xFFFFFFFF, 0x80000002, 0x80000003, 0x7FFFFFFE, 0x7FFFFFFF, 0x3FF00000, 0x3FF00001, 0, 1, 0xBFF00000, 0xC0000001}[r.IntN(14)]
		}
		if v := rkValue(rk); !math.IsNaN(v) && !math.IsInf(v, 0) {
			return rk
		}
	}
}

// numText writes v as one of the decimal forms XML allows for xsd:double.
func numText(r *rand.Rand, v float64) string {
	s := strconv.FormatFloat(v, 'g', -1, 64)
	var alt string
	switch r.IntN(9) {
	case 0:
		alt = strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		alt = strconv.FormatFloat(v, 'E', -1, 64)
	case 2:
		if math.Abs(v) < 1e25 {
			alt = strconv.FormatFloat(v, 'f', -1, 64)
		}
	case 3:
		if !strings.ContainsAny(s, "eE.") {
			alt = s + ".0"
		}
	case 4:
		alt = strconv.FormatFloat(v, 'g', 17, 64)
	case 5:
		if v >= 0 {
			alt = "00" + s
		}
	case 6:
		alt = " " + s + "\n"
	case 7:
		if math.Abs(v) < 1e25 {
			alt = strconv.FormatFloat(v, 'f', -1, 64)
			if strings.Contains(alt, ".") {
				alt += "000"
			}
		}
	}
	if alt != "" {
		if x, err := strconv.ParseFloat(strings.TrimSpace(alt), 64); err == nil && x == v {
			return alt
		}
	}
	return s
}

func randSheetName(r *rand.Rand, used map[string]bool) string {
	for {
		var s string
		switch r.IntN(6) {
		case 0:
			s = fmt.Sprintf("Sheet%d", 1+r.IntN(9))
		case 1:
			s = [...]string{"a b", "A B", "a-b", "R&D", "<x>", "it's", "\"q\"", "données", "données", "日本語", "😀", " lead", "trail ", "x.y", "100%", "#1", "main", "€uro", "Ünï", "_x0041_", "a_x005F_", "_x_"}[r.IntN(22)]
		case 2:
			s = randRunes(r, 1+r.IntN(31))
		case 3:
			s = strings.Repeat("n", 31)
		default:
			s = fmt.Sprintf("S%d %c", r.IntN(30), 'a'+rune(r.IntN(26)))
		}
		s = strings.Map(func(c rune) rune {
			if strings.ContainsRune(":\\/?*[]", c) {
				return '_'
			}
			return c
		}, s)
		for len(utf16.Encode([]rune(s))) > 31 {
			rs := []rune(s)
			s = string(rs[:len(rs)-1])
		}
		if s == "" || used[s] {
			continue
		}
		used[s] = true
		return s
	}
}

// GenOpts selects what genBook makes.
type GenOpts struct {
	XLS       bool // RK encodings, XLS limits
	MaxSheets int
	MaxCells  int
	Formats   bool // number formats on numbers and text
	Hidden    bool
	Charts    bool
	Big       bool // may reach the limits of the sheet
	Scale     bool // sometimes has many sheets, formats or columns
	LongText  bool
	NoText    bool
}

// numericFmts keep a number a number.
var numericFmts = []wb.Fmt{{ID: 1}, {ID: 2}, {ID: 3}, {ID: 4}, {ID: 9}, {ID: 10}, {ID: 11}, {ID: 12}, {ID: 13}, {ID: 37}, {ID: 38}, {ID: 39}, {ID: 40}, {ID: 41}, {ID: 42}, {ID: 43}, {ID: 44, Code: `_-"£"* #,##0.00_-;\-"£"* #,##0.00_-;_-"£"* "-"??_-;_-@_-`}, {ID: 48},
	{ID: 164, Code: "0.000"}, {ID: 165, Code: "#,##0.0"}, {ID: 170, Code: "0.0%"}, {ID: 200, Code: "0.00;(0.00)"}, {ID: 300, Code: "0.0E+00"}}

// genPositions picks distinct cells.
func genPositions(r *rand.Rand, n int, xls, big bool) []pos {
	mr, mc := 1048576, 16384
	if xls {
		mr, mc = 65536, 256
	}
	seen := map[pos]bool{}
	var ps []pos
	h, w := 1+r.IntN(12), 1+r.IntN(12)
	or, oc := 0, 0
	if r.IntN(3) == 0 {
		or, oc = r.IntN(40), r.IntN(30)
	}
	if big {
		switch r.IntN(4) {
		case 0:
			or, w, oc = mr-h-r.IntN(3), 1+r.IntN(2), 0
			if or < 0 {
				or = 0
			}
			if or+h > mr {
				or = mr - h
			}
		case 1:
			oc, h, or = mc-w, 1+r.IntN(3), 0
		case 2:
			or, oc = r.IntN(2000), r.IntN(200)
		case 3:
			or, w = r.IntN(30000), 1+r.IntN(8)
		}
	}
	for len(ps) < n && len(seen) < h*w {
		p := pos{or + r.IntN(h), oc + r.IntN(w)}
		if p.R >= mr || p.C >= mc {
			continue
		}
		if seen[p] {
			if r.IntN(4) == 0 {
				break
			}
			continue
		}
		seen[p] = true
		ps = append(ps, p)
	}
	return ps
}

// genCell fills in a random value.
func genCell(r *rand.Rand, o *GenOpts, nf int) wb.Cell {
	var c wb.Cell
	if nf > 1 && r.IntN(3) == 0 {
		c.Fmt = r.IntN(nf)
	}
	k := r.IntN(14)
	if o.NoText && k >= 4 && k <= 8 {
		k = 0
	}
	switch k {
	case 0, 1, 2, 3:
		c.Kind = wb.Num
		if o.XLS && r.IntN(3) > 0 {
			c.Enc = wb.Pick(r, wb.EncRK, wb.EncMulRk)
			c.RK = randRK(r)
			c.Num = rkValue(c.RK)
		} else {
			c.Num = randNum(r)
			c.NumText = numText(r, c.Num)
		}
	case 4, 5, 6:
		c.Kind = wb.Str
		c.Inline = r.IntN(3) == 0
		if r.IntN(4) == 0 {
			c.Runs = 1 + r.IntN(4)
		}
		if r.IntN(4) == 0 {
			c.Phon = 2 * (1 + r.IntN(20))
		}
	case 7, 8:
		c.Kind = wb.FStr
	case 9:
		c.Kind = wb.Bool
	case 10:
		c.Kind = wb.Err
	case 11:
		c.Kind = wb.FNum
		c.Num = randNum(r)
		c.NumText = numText(r, c.Num)
	case 12:
		c.Kind = wb.Pick(r, wb.FBool, wb.FErr)
	case 13:
		c.Kind = wb.Blank
		if r.IntN(2) == 0 {
			c.Str = "f"
		}
	}
	switch c.Kind {
	case wb.Str, wb.FStr:
		max := 500
		if o.LongText && r.IntN(12) == 0 {
			max = 32767
			c.Str = fixText(randRunes(r, 1000+r.IntN(9000)), max)
		} else {
			c.Str = randText(r, max)
		}
		c.Wide = r.IntN(3) == 0
		if c.Kind == wb.FStr && r.IntN(3) == 0 {
			n := len(utf16.Encode([]rune(c.Str)))
			p := 0
			for p < n {
				p += 1 + r.IntN(1+n/2)
				c.Splits = append(c.Splits, p)
				c.SplitW = append(c.SplitW, r.IntN(2) == 0)
			}
			c.SplitW = append(c.SplitW, r.IntN(2) == 0)
		}
	case wb.Bool, wb.FBool:
		c.Bool = r.IntN(2) == 0
	case wb.Err, wb.FErr:
		c.Err = wb.ErrCodes[r.IntN(len(wb.ErrCodes))]
	}
	return c
}

func looksNumeric(s string) bool {
	_, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return err == nil || in(strings.ToLower(s), []string{"yes", "no", "true", "false", "t", "f", "y", "n", "on", "off"})
}

// genBook makes a workbook without merges and links.
func genBook(r *rand.Rand, o GenOpts) *wb.Workbook {
	w := &wb.Workbook{Fmts: []wb.Fmt{{}}}
	if o.Formats && r.IntN(4) > 0 {
		for i, n := 0, 1+r.IntN(5); i < n; i++ {
			f := numericFmts[r.IntN(len(numericFmts))]
			dup := false
			for _, g := range w.Fmts {
				dup = dup || g.ID == f.ID
			}
			if !dup {
				w.Fmts = append(w.Fmts, f)
			}
		}
	}
	scale := 0
	if o.Scale {
		scale = r.IntN(120)
	}
	if scale == 1 { // unused formats
		for id := 171; id < 383; id++ {
			dup := false
			for _, f := range w.Fmts {
				dup = dup || f.ID == id
			}
			for _, f := range append(dateFmts, bothFmts...) {
				dup = dup || f.ID == id
			}
			if !dup {
				w.Fmts = append(w.Fmts, wb.Fmt{ID: id, Code: wb.Pick(r, "0.000", "#,##0.0", "0.0%")})
			}
		}
		r.Shuffle(len(w.Fmts)-1, func(i, j int) { w.Fmts[i+1], w.Fmts[j+1] = w.Fmts[j+1], w.Fmts[i+1] })
	}
	used := map[string]bool{}
	ns := 1 + r.IntN(o.MaxSheets)
	if scale == 2 {
		ns = 250 + r.IntN(100)
		o.MaxCells = 2
	}
	for i := 0; i < ns; i++ {
		s := wb.Sheet{Name: randSheetName(r, used), DimRows: -1, DimCols: -1, Wide: r.IntN(2) == 0}
		if o.Hidden && i > 0 && r.IntN(3) == 0 {
			s.Hidden = 1 + r.IntN(2)
		}
		if o.Charts && r.IntN(3) == 0 {
			s.Charts = wb.Pick(r, 1, 1, 2, 3, 4, 5+r.IntN(30))
		}
		n := r.IntN(o.MaxCells + 1)
		if r.IntN(10) == 0 {
			n = 0
		}
		big := o.Big && i == 0 && r.IntN(40) == 0
		ps := genPositions(r, n, o.XLS, big)
		for _, p := range ps {
			c := genCell(r, &o, len(w.Fmts))
			c.Row, c.Col = p.R, p.C
			s.Cells = append(s.Cells, c)
		}
		if scale == 3 && i == 0 { // a wide row
			n := wb.Pick(r, 255, 256)
			if !o.XLS {
				n = wb.Pick(r, 257, 703, 704, 1000, 16384)
			}
			s.Cells = s.Cells[:0]
			row := r.IntN(3)
			other := wb.Pick(r, 100, 1<<30)
			for k := 0; k < n; k++ {
				c := genCell(r, &GenOpts{XLS: o.XLS, NoText: r.IntN(3) > 0, Formats: o.Formats}, len(w.Fmts))
				c.Row, c.Col = row, k
				if o.XLS && r.IntN(other) > 0 {
					x := int32(r.IntN(1 << 20))
					c = wb.Cell{Row: row, Col: k, Kind: wb.Num, Num: float64(x), Enc: wb.EncMulRk, RK: uint32(x<<2 | 2), Fmt: c.Fmt}
				}
				s.Cells = append(s.Cells, c)
			}
		}
		sortCells(s.Cells)
		if o.XLS && r.IntN(4) == 0 {
			er, ec := s.Extent()
			switch r.IntN(3) {
			case 0:
				s.DimRows, s.DimCols = er/2, ec/2
			case 1:
				s.DimRows, s.DimCols = min(er+3, 65536), min(ec+2, 256)
			case 2:
				s.DimRows, s.DimCols = 0, 0
			}
		}
		w.Sheets = append(w.Sheets, s)
	}
	return w
}

func sortCells(cs []wb.Cell) {
	for i := 1; i < len(cs); i++ {
		for j := i; j > 0 && (cs[j].Row < cs[j-1].Row || cs[j].Row == cs[j-1].Row && cs[j].Col < cs[j-1].Col); j-- {
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
}

func randXLSOpts(r *rand.Rand) wb.XLSOpts {
	return wb.XLSOpts{Rand: r, Noise: wb.Pick(r, 0, 0, 10, 40), SSTSplit: wb.Pick(r, 0, 0, 10, 50, 500), FlipWidth: r.IntN(2) == 0,
		CellOrder: wb.Pick(r, 0, 0, 1), DupSST: r.IntN(3) == 0, ExtraSST: wb.Pick(r, 0, 0, 1, 5), XFPad: wb.Pick(r, 0, 15, 21)}
}

// scaleXLS sometimes asks for much more of something than usual.
func scaleXLS(c *mon.Ctx, o *wb.XLSOpts) {
	switch c.Rand.IntN(150) {
	case 0, 1:
		o.XFPad = 240 + c.Rand.IntN(800)
		c.Count("many_xfs", 1)
	case 2:
		o.XFPad = 3900 + c.Rand.IntN(100)
		c.Count("many_xfs", 1)
	case 3:
		if c.Rand.IntN(3) == 0 {
			o.ExtraSST = 65530 + c.Rand.IntN(300)
			o.SSTSplit = 0
			c.Count("many_strings", 1)
		}
	case 4, 5:
		o.Pre = append(o.Pre, manyRecs(c.Rand, 60+c.Rand.IntN(400))...)
		c.Count("many_records", 1)
	case 6:
		o.Pre = append(o.Pre, manyRecs(c.Rand, 2000+c.Rand.IntN(3000))...)
		c.Count("many_records", 1)
	case 7:
		if c.Rand.IntN(6) == 0 { // sheets start past 16 MB
			for i := 0; i < 2050; i++ {
				o.Pre = append(o.Pre, wb.Rec{Type: 0x00EC, Data: zeros8k, Tag: "pad"})
			}
			c.Count("over_16mb", 1)
		}
	}
}

var zeros8k = make([]byte, 8224)

// manyRecs are records without meaning to a reader.
func manyRecs(r *rand.Rand, n int) []wb.Rec {
	res := make([]wb.Rec, n)
	for i := range res {
		res[i] = padRec(r, r.IntN(24))
	}
	return res
}

func scaleXLSX(c *mon.Ctx, o *wb.XLSXOpts) {
	switch c.Rand.IntN(150) {
	case 0, 1:
		o.StylePad = 240 + c.Rand.IntN(800)
		c.Count("many_xfs", 1)
	case 2:
		if c.Rand.IntN(3) > 0 {
			o.StylePad = wb.Pick(c.Rand, 32700+c.Rand.IntN(100), 33000+c.Rand.IntN(32000), 65530+c.Rand.IntN(300))
			o.Strict = false
			c.Count("many_xfs", 1)
		}
	case 3:
		if c.Rand.IntN(3) == 0 {
			o.ExtraSST = 65530 + c.Rand.IntN(300)
			c.Count("many_strings", 1)
		}
	}
}

func randCFBOpts(r *rand.Rand) wb.CFBOpts {
	return wb.CFBOpts{Rand: r, V4: r.IntN(4) == 0, Shuffle: r.IntN(2) == 0, Holes: wb.Pick(r, 0, 0, 3), HighSize: r.IntN(6) == 0, Tree: r.IntN(2) == 0}
}

func shuffledOrder(r *rand.Rand, n int) []int {
	if r.IntN(2) == 0 {
		return nil
	}
	return r.Perm(n)
}

func describe(w *wb.Workbook) string {
	var b strings.Builder
	for _, s := range w.Sheets {
		kinds := map[string]int{}
		for _, c := range s.Cells {
			kinds[c.Kind.String()]++
		}
		er, ec := s.Extent()
		fmt.Fprintf(&b, "[%s %dx%d %v]", q(s.Name), er, ec, kinds)
	}
	return b.String()
}

// shape is the distinctness key of a workbook: kinds and layout, not values.
func shape(w *wb.Workbook) string {
	var b strings.Builder
	for _, s := range w.Sheets {
		fmt.Fprintf(&b, "|%d.%d.%d.%d:", s.Hidden, s.Type, len(s.Merges), len(s.Links))
		for _, c := range s.Cells {
			fmt.Fprintf(&b, "%d,%d,%d,%d;", c.Row, c.Col, c.Kind, c.Fmt)
		}
	}
	return b.String()
}
