package checks

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C09", Quick: 50000, Thorough: 2000000,
		Rule:      "each case opens a random XLS, XLSX, TSV or CSV file and on every non-blank row compares Strings/Types/Formats with each other and the model, then calls Scan with up to 12 random destination lists (right types, one wrong type, all types, too few, too many, nil, non-pointers, unsupported pointers) and compares the outcome with the cells; distinct = distinct (column types, destination types) pairs",
		Assume:    []string{"blank cells report General or their own format", "the simple readers need one destination per column"},
		MinEvents: map[string]int{"rows": 8000, "scans": 50000, "scan_ok": 8000, "scan_err": 20000, "dates": 1000, "too_many": 2000, "unsupported": 2000, "sparse_rows": 1000, "text_rows": 3000},
		Case:      caseC09,
	})
}

// serialTime is the instant of a serial (1900 system: 61 and later).
func serialTime(v float64, d1904 bool) time.Time {
	base := time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)
	if d1904 {
		base = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	day := math.Floor(v)
	ms := math.Round((v - day) * 86400000)
	return base.AddDate(0, 0, int(day)).Add(time.Duration(ms) * time.Millisecond)
}

var dateFmts = []wb.Fmt{{ID: 14}, {ID: 15}, {ID: 17}, {ID: 18}, {ID: 20}, {ID: 22}, {ID: 45}, {ID: 46}, {ID: 190, Code: "yyyy-mm-dd"}, {ID: 191, Code: "hh:mm:ss"}}

var docTypes = []string{"boolean", "integer", "float", "string", "date", "blank", "hyperlink", "static"}

type destKind int

const (
	dBool destKind = iota
	dInt64
	dFloat
	dString
	dTime
	dInt
	dNil
	dValue
	dOther
	dNilPtr
	nDest
)

func newDest(r *rand.Rand, k destKind) interface{} {
	switch k {
	case dBool:
		v := r.IntN(2) == 0
		return &v
	case dInt64:
		v := int64(-987654321)
		return &v
	case dFloat:
		v := -98765.4321
		return &v
	case dString:
		v := "unset\x00"
		return &v
	case dTime:
		v := time.Unix(12345, 0)
		return &v
	case dInt:
		v := -987654321
		return &v
	case dNil:
		return nil
	case dValue:
		return wb.Pick[interface{}](r, true, int64(1), 1.5, "s", time.Unix(0, 0), 5)
	case dOther:
		return wb.Pick[interface{}](r, new(uint8), new(*string), new([]byte), struct{}{}, new(interface{}), new(int32), map[string]int{}, func() {})
	}
	return nil
}

// scanWant tells whether a destination must (1), may (0) or must not (-1) be
// accepted for a cell, and what it must hold then.
func gridWant(k destKind, typ string, v interface{}) (int, interface{}) {
	ok := map[destKind][]string{dBool: {"boolean"}, dInt64: {"integer"}, dFloat: {"float"}, dString: {"string", "blank", "hyperlink", "static"}, dTime: {"date"}}
	if in(typ, ok[k]) {
		return 1, v
	}
	if n, ok := v.(int64); ok && k == dInt {
		return 0, int(n)
	}
	return -1, nil
}

func textWant(k destKind, s string) (int, interface{}) {
	switch k {
	case dString:
		return 1, s
	case dInt64, dInt:
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return -1, nil
		}
		if k == dInt {
			return 1, int(n)
		}
		return 1, n
	case dFloat:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return -1, nil
		}
		if strings.Trim(s, "0123456789+-.eE") == "" {
			return 1, f
		}
		return 0, f
	case dBool:
		switch strings.ToLower(s) {
		case "1", "t", "true", "y", "yes":
			return 1, true
		case "0", "f", "false", "n", "no":
			return 1, false
		}
		return -1, nil
	}
	return -1, nil
}

func caseC09(c *mon.Ctx) {
	r := c.Rand
	kind := r.IntN(4)
	var src grate.Source
	var names []string
	wants := map[string]map[pos]Exp{}
	sparse := map[string]bool{}
	if kind < 2 {
		w := genBook(r, GenOpts{XLS: kind == 0, MaxSheets: 2, MaxCells: 30, Formats: true, Scale: true})
		w.Date1904 = r.IntN(4) == 0
		if r.IntN(2) == 0 {
			for _, i := range r.Perm(len(dateFmts))[:3] {
				dup := false
				for _, f := range w.Fmts {
					dup = dup || f.ID == dateFmts[i].ID
				}
				if !dup {
					w.Fmts = append(w.Fmts, dateFmts[i])
				}
			}
		}
		for si := range w.Sheets {
			s := &w.Sheets[si]
			dates := map[pos]Exp{}
			for i := range s.Cells {
				x := &s.Cells[i]
				if (x.Kind == wb.Num || x.Kind == wb.FNum) && r.IntN(2) == 0 {
					if f := r.IntN(len(w.Fmts)); isDate(w.Fmts[f]) {
						x.Fmt, x.Enc, x.Kind = f, wb.EncNumber, wb.Num
						x.Num = float64(61 + r.IntN(100000))
						if r.IntN(2) == 0 {
							x.Num += float64(r.IntN(86400)) / 86400
						}
						x.NumText = ""
						dates[pos{x.Row, x.Col}] = Exp{Types: []string{"date"}, Val: serialTime(x.Num, w.Date1904), Fmt: fmtNames(w.Fmts[f]), Want: "date"}
						c.Count("dates", 1)
					}
				}
			}
			if s.Type == 0 && r.IntN(60) == 0 { // the area is too large to hold all of its cells
				s.Cells = append(s.Cells, wb.Cell{Row: 62000 + r.IntN(3500), Col: 18 + r.IntN(40), Kind: wb.Str, Str: "far"})
				sparse[s.Name] = true
			}
			if r.IntN(4) == 0 {
				m := wb.Merge{R1: r.IntN(6), C1: r.IntN(6)}
				m.R2, m.C2 = m.R1+r.IntN(3), m.C1+1
				s.Merges = append(s.Merges, m)
			}
			want := expSheet(w, s)
			for p, e := range dates {
				want[p] = e
			}
			uncover(want, s.Merges)
			addMarkers(want, s.Merges, 1<<20, 1<<14, false)
			if r.IntN(4) == 0 && kind == 1 {
				l := wb.Link{R1: 20, C1: 2, R2: 20, C2: 2, Target: "http://x/"}
				if _, ok := want[pos{20, 2}]; !ok {
					s.Links = append(s.Links, l)
					want[pos{20, 2}] = Exp{Text: exact("http://x/"), Types: []string{"hyperlink"}, Val: "http://x/"}
				}
			}
			wants[s.Name] = want
			names = append(names, s.Name)
		}
		c.Note("xls=%v %s", kind == 0, describe(w))
		if kind == 0 {
			o := randXLSOpts(r)
			scaleXLS(c, &o)
			b, _ := wb.BuildXLS(w, o, randCFBOpts(r))
			c.Artifact("book.xls", b)
			src = mustOpen(c, c.File(".xls", b))
		} else {
			o := wb.RandXLSXOpts(r)
			scaleXLSX(c, &o)
			b, _, _ := wb.BuildXLSX(w, o)
			c.Artifact("book.xlsx", b)
			src = mustOpen(c, c.File(".xlsx", b))
		}
	} else {
		nc := 2 + r.IntN(6)
		var recs [][]string
		want := map[pos]Exp{}
		for i, n := 0, 1+r.IntN(12); i < n; i++ {
			var rec []string
			for k := 0; k < nc; k++ {
				s := strings.NewReplacer("\t", " ", "\n", " ", "\r", " ", ",", ";", "\ufeff", "").Replace(wb.Pick(r, randText(r, 20), strconv.Itoa(r.IntN(100)-50), fmt.Sprint(r.NormFloat64()), "", "true", "No", "y", "-0", "9223372036854775807", "9223372036854775808", "1e400", "maybe", "1.0", "+5", "0x10", "1_000", "NaN"))
				if i == 0 && k == 0 && s == "" {
					s = "h"
				}
				rec = append(rec, s)
				e := Exp{Text: exact(s), Want: s, Types: []string{"string"}, Val: s, Fmt: []string{"General"}}
				if s != "" {
					want[pos{i, k}] = e
				}
			}
			recs = append(recs, rec)
		}
		var b bytes.Buffer
		if kind == 2 {
			for _, rec := range recs {
				b.WriteString(strings.Join(rec, "\t") + "\n")
			}
		} else {
			cw := csv.NewWriter(&b)
			cw.WriteAll(recs)
		}
		c.Artifact("table.txt", b.Bytes())
		c.Note("text kind %d %dx%d", kind, len(recs), nc)
		src = mustOpen(c, c.File(".txt", b.Bytes()))
		l, err := src.List()
		if err != nil || len(l) != 1 {
			c.Fatal("list", "List of a text file: %q %v", l, err)
		}
		names = l
		wants[l[0]] = want
	}
	defer src.Close()
	for _, n := range names {
		col := mustGet(c, src, n)
		var rows []Row
		total := 0
		for col.Next() {
			row := readRow(col)
			rows = append(rows, row)
			if len(row.T) != 0 && len(row.T) != row.N || len(row.F) != 0 && len(row.F) != row.N {
				c.Fatal("lengths", "%s row %d: Strings %d, Types %d, Formats %d", q(n), len(rows), row.N, len(row.T), len(row.F))
			}
			if sparse[n] && len(rows) > 60 {
				total += 1 << 20 // seen enough of it
			}
			if total += row.N + 1; total > 200000 {
				break
			}
			if row.Blank && r.IntN(5) > 0 || row.SErr != nil {
				continue
			}
			c.Count("rows", 1)
			if sparse[n] {
				c.Count("sparse_rows", 1)
			}
			if kind >= 2 {
				c.Count("text_rows", 1)
			}
			s, t, f := col.Strings(), col.Types(), col.Formats()
			v := row.V
			if row.Blank { // readRow did not keep the values
				for range s {
					v = append(v, "")
				}
			}
			if len(t) != len(s) || len(f) != len(s) {
				c.Fatal("lengths", "%s row %d: Strings %d, Types %d, Formats %d", q(n), len(rows), len(s), len(t), len(f))
			}
			for k := range t {
				if !in(t[k], docTypes) {
					c.Fatal("typename", "%s %s: undocumented type %q", q(n), wb.Ref(len(rows)-1, k), t[k])
				}
				if t[k] == "blank" && s[k] != "" {
					c.Fatal("blanktext", "%s %s: blank cell has text %s", q(n), wb.Ref(len(rows)-1, k), q(s[k]))
				}
			}
			if len(s) > 200 {
				continue
			}
			for j := 0; j < 12; j++ {
				scanOnce(c, col, kind >= 2, fmt.Sprintf("%s row %d", q(n), len(rows)), s, t, v)
			}
		}
		if total <= 200000 {
			compareSheet(c, q(n), rows, wants[n])
		}
	}
}

func isDate(f wb.Fmt) bool {
	for _, d := range dateFmts {
		if d.ID == f.ID {
			return true
		}
	}
	return false
}

func scanOnce(c *mon.Ctx, col grate.Collection, text bool, label string, s, t []string, v []interface{}) {
	r := c.Rand
	right := map[string]destKind{"boolean": dBool, "integer": dInt64, "float": dFloat, "date": dTime}
	n := len(t)
	mode := r.IntN(8)
	switch mode {
	case 0:
		n = r.IntN(n + 1)
	case 1:
		n += 1 + r.IntN(3)
		c.Count("too_many", 1)
	}
	ks := make([]destKind, n)
	for i := range ks {
		ks[i] = dString
		if i < len(t) {
			if k, ok := right[t[i]]; ok {
				ks[i] = k
			}
			if text && r.IntN(2) == 0 { // any type the text can be read as
				k := wb.Pick(r, dInt64, dFloat, dBool, dInt)
				if m, _ := textWant(k, s[i]); m == 1 {
					ks[i] = k
				}
			}
		}
	}
	if n > 0 {
		switch mode {
		case 2, 3, 4:
			ks[r.IntN(n)] = destKind(r.IntN(int(dInt) + 1))
		case 5:
			for i := range ks {
				ks[i] = destKind(r.IntN(int(dInt) + 1))
			}
		case 6:
			ks[r.IntN(n)] = wb.Pick(r, dNil, dValue, dOther)
			c.Count("unsupported", 1)
		}
	}
	args := make([]interface{}, n)
	for i := range args {
		args[i] = newDest(r, ks[i])
	}
	err := col.Scan(args...)
	c.Count("scans", 1)
	c.Key(t, ks)
	must, may := true, true // must succeed, may succeed
	if n > len(t) {
		must, may = false, false
	} else if n < len(t) {
		must = false
	}
	why := fmt.Sprintf("%d destinations for %d columns", n, len(t))
	for i := 0; i < n && i < len(t); i++ {
		var m int
		var want interface{}
		if text {
			m, want = textWant(ks[i], s[i])
		} else {
			m, want = gridWant(ks[i], t[i], v[i])
		}
		if m < 0 {
			must, may = false, false
			why = fmt.Sprintf("destination %d is %T for type %s text %s", i, args[i], t[i], q(s[i]))
		} else if m == 0 {
			must = false
		}
		if m >= 0 && err == nil {
			got := deref(args[i])
			same := got == want
			if g, ok := got.(float64); ok && math.IsNaN(g) {
				w, _ := want.(float64)
				same = math.IsNaN(w)
			}
			if g, ok := got.(time.Time); ok {
				w, _ := want.(time.Time)
				same = g.Equal(w)
			}
			if !same {
				c.Fatal("scanvalue", "%s column %d: Scan(%T) stored %v, the cell is %v (text %s, type %s)", label, i, args[i], got, want, q(s[i]), t[i])
			}
		}
	}
	if err == nil {
		c.Count("scan_ok", 1)
		if !may {
			c.Fatal("scanlie", "%s: Scan succeeded with %s", label, why)
		}
	} else {
		c.Count("scan_err", 1)
		if must {
			c.Fatal("scanrefused", "%s: Scan with destinations %v of types %v: %v", label, ks, t, err)
		}
	}
}
