package checks

import (
	"fmt"
	"math"
	"math/rand/v2"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C04", Quick: 24000, Thorough: 1200000,
		Rule:      "each case writes one logical workbook (visible sheets, numbers, text, booleans, errors, formulas, numeric/date/custom formats, merged ranges) as XLS and as XLSX, with independently chosen encodings of every number (NUMBER, the four RK forms, MULRK, decimal text variants) and layouts, and compares names, Strings and Types of the two readings cell by cell; two cases in three also have hidden and empty sheets, soups of format codes, encryption, and compare formats, emptiness, hidden names and what Scan stores; distinct = distinct (cell kinds, positions, formats); trivial = no cells",
		Assume:    []string{"text that reads as a number carries General only; booleans carry General", "applyNumberFormat is absent or 1", "hyperlinks are excluded (C08: the formats show them differently by design)", "trailing blank rows and columns are not compared"},
		MinEvents: map[string]int{"cells": 30000, "rk": 3000, "merge": 500, "datecells": 1000, "int_as_float": 1000, "sheets": 8000, "merges": 1500, "formatted": 20000, "encrypted": 300, "soup_formats": 3000, "date1904": 500},
		Case:      caseC04,
	})
}

// rkFor returns an RK encoding of v.
func rkFor(r *rand.Rand, v float64) (uint32, bool) {
	var all []uint32
	try := func(rk uint32) {
		if x := rkValue(rk); x == v && math.Signbit(x) == math.Signbit(v) {
			all = append(all, rk)
		}
	}
	if math.Abs(v) < 1<<29 && v == math.Trunc(v) {
		try(uint32(int32(v)<<2) | 2)
	}
	h := math.Round(v * 100)
	if math.Abs(h) < 1<<29 {
		try(uint32(int32(h)<<2) | 3)
	}
	try(uint32(math.Float64bits(v)>>32) &^ 3)
	try(uint32(math.Float64bits(v*100)>>32)&^3 | 1)
	if len(all) == 0 {
		return 0, false
	}
	return all[r.IntN(len(all))], true
}

var bothFmts = append(append([]wb.Fmt{}, numericFmts...), []wb.Fmt{{ID: 14}, {ID: 15}, {ID: 16}, {ID: 17}, {ID: 18}, {ID: 19}, {ID: 20}, {ID: 21}, {ID: 22}, {ID: 45}, {ID: 46}, {ID: 47}, {ID: 49},
	{ID: 180, Code: "yyyy-mm-dd hh:mm"}, {ID: 181, Code: "mmm d"}, {ID: 182, Code: "[h]:mm:ss"}, {ID: 183, Code: "\"x\"0.0"}, {ID: 184, Code: "0;-0;\"nil\";\"<\"@\">\""}, {ID: 185, Code: "# ?/?"}, {ID: 186, Code: "General"}, {ID: 5, Code: "$#,##0"}, {ID: 23, Code: "0.0000"}}...)

func caseC04(c *mon.Ctx) {
	r := c.Rand
	if r.IntN(3) > 0 {
		caseC04full(c)
		return
	}
	w := genBook(r, GenOpts{XLS: true, MaxSheets: 3, MaxCells: 40, Big: r.IntN(10) == 0})
	w.Date1904 = r.IntN(4) == 0
	for _, i := range r.Perm(len(bothFmts))[:r.IntN(6)] {
		w.Fmts = append(w.Fmts, bothFmts[i])
	}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		s.DimRows, s.DimCols = -1, -1
		for i := range s.Cells {
			x := &s.Cells[i]
			if r.IntN(2) == 0 {
				x.Fmt = r.IntN(len(w.Fmts))
			}
			if x.Kind == wb.Num || x.Kind == wb.FNum {
				if x.Enc == wb.EncNumber && r.IntN(3) == 0 {
					x.Num = wb.Pick(r, float64(r.IntN(2000)-1000), float64(r.IntN(200000)-100000)/100, float64(r.IntN(80000)), float64(r.IntN(80000))+float64(r.IntN(24))/24, float64(r.IntN(1000))/8)
				}
				x.NumText = numText(r, x.Num)
				x.Enc = wb.EncNumber
				if rk, ok := rkFor(r, x.Num); ok && x.Kind == wb.Num {
					if r.IntN(3) > 0 {
						x.Enc, x.RK = wb.Pick(r, wb.EncRK, wb.EncMulRk), rk
						c.Count("rk", 1)
					} else if x.Num == math.Trunc(x.Num) {
						c.Count("int_as_float", 1)
					}
				}
				if f := w.Fmts[x.Fmt].ID; f >= 14 && f <= 22 {
					c.Count("datecells", 1)
				}
			}
		}
		// merges
		for k := r.IntN(3); k > 0; k-- {
			m := wb.Merge{R1: r.IntN(12), C1: r.IntN(12)}
			m.R2, m.C2 = m.R1+r.IntN(4), m.C1+r.IntN(4)
			if m.R1 == m.R2 && m.C1 == m.C2 {
				m.C2++
			}
			if !overlaps(s.Merges, m) {
				s.Merges = append(s.Merges, m)
				c.Count("merge", 1)
			}
		}
	}
	xo := randXLSOpts(r)
	scaleXLS(c, &xo)
	xo.SheetOrder = shuffledOrder(r, len(w.Sheets))
	bx, _ := wb.BuildXLS(w, xo, randCFBOpts(r))
	bz, _, _ := wb.BuildXLSX(w, wb.RandXLSXOpts(r))
	c.Artifact("book.xls", bx)
	c.Artifact("book.xlsx", bz)
	c.Note("%s fmts %v", describe(w), w.Fmts)
	c.Key(shape(w))
	a := mustOpen(c, c.File(".xls", bx))
	defer a.Close()
	b := mustOpen(c, c.File(".xlsx", bz))
	defer b.Close()
	la, ea := a.List()
	lb, eb := b.List()
	if ea != nil || eb != nil || fmt.Sprintf("%q", la) != fmt.Sprintf("%q", lb) {
		c.Fatal("list", "List: XLS %q (%v), XLSX %q (%v)", la, ea, lb, eb)
	}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		ra, capA := readAll(mustGet(c, a, s.Name))
		rb, capB := readAll(mustGet(c, b, s.Name))
		if capA || capB {
			c.Count("capped", 1)
			continue
		}
		at := func(rows []Row, i, k int) (string, string, interface{}) {
			if i >= len(rows) || k >= rows[i].N || rows[i].Blank {
				return "", "blank", ""
			}
			return rows[i].S[k], rows[i].T[k], rows[i].V[k]
		}
		for i := 0; i < max(len(ra), len(rb)); i++ {
			n := 0
			if i < len(ra) {
				n = max(n, ra[i].N)
			}
			if i < len(rb) {
				n = max(n, rb[i].N)
			}
			if (i >= len(ra) || ra[i].Blank) && (i >= len(rb) || rb[i].Blank) {
				continue
			}
			for k := 0; k < n; k++ {
				sa, ta, va := at(ra, i, k)
				sb, tb, vb := at(rb, i, k)
				c.Count("cells", 1)
				if sa != sb || ta != tb {
					c.Fatal("differ", "%s %s: XLS %s (%s, %v), XLSX %s (%s, %v)", q(s.Name), wb.Ref(i, k), q(sa), ta, va, q(sb), tb, vb)
				}
				if fmt.Sprint(va) != fmt.Sprint(vb) {
					c.Fatal("value", "%s %s: XLS value %T %v, XLSX value %T %v", q(s.Name), wb.Ref(i, k), va, va, vb, vb)
				}
			}
		}
	}
}

func overlaps(ms []wb.Merge, m wb.Merge) bool {
	for _, x := range ms {
		if m.R1 <= x.R2 && x.R1 <= m.R2 && m.C1 <= x.C2 && x.C1 <= m.C2 {
			return true
		}
	}
	return false
}
