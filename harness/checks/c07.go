package checks

import (
	"fmt"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C07", Quick: 30000, Thorough: 1000000,
		Rule:      "each case writes disjoint merged ranges (single rows/columns, blocks, adjacent ranges, ranges past the last stored cell or the declared area, covered cells that still hold values, hundreds of ranges over several records) with random content inside and outside, as XLS or XLSX, and compares every position with the documented markers and the model; distinct = distinct (ranges, cell positions)",
		Assume:    []string{"in sheets with a range of more than 60000 cells, or for ranges up to the last row or column of XLS (where the value may also mean the last one in use), only the cells within the stored extent are required"},
		MinEvents: map[string]int{"ranges": 5000, "markers": 30000, "covered_values": 500, "past_extent": 500, "many": 20, "huge": 30},
		Case:      caseC07,
	})
}

// addMarkers adds the expectation of the merged ranges; lim limits huge ranges.
func addMarkers(want map[pos]Exp, ms []wb.Merge, rows, cols int, xls bool) (n int, free []wb.Merge) {
	huge := false
	for _, m := range ms {
		huge = huge || (m.R2-m.R1+1)*(m.C2-m.C1+1) > 60000
	}
	for _, m := range ms {
		r2, c2 := m.R2, m.C2
		toEdge := xls && (m.R2 == 65535 || m.C2 == 255)
		if toEdge || huge {
			free = append(free, m)
			r2, c2 = min(r2, rows-1), min(c2, cols-1)
		}
		for r := m.R1; r <= r2; r++ {
			for k := m.C1; k <= c2; k++ {
				if r == m.R1 && k == m.C1 {
					continue
				}
				var s string
				switch {
				case k == m.C1 && r == m.R2:
					s = grate.EndRowMerged
				case k == m.C1:
					s = grate.ContinueRowMerged
				case k == m.C2:
					s = grate.EndColumnMerged
				default:
					s = grate.ContinueColumnMerged
				}
				e := Exp{Text: exact(s), Want: s, Val: s}
				if toEdge { // 0xFFFF and 0xFF may mean "up to the last one of the sheet"
					s2 := map[string]string{grate.ContinueRowMerged: grate.EndRowMerged, grate.ContinueColumnMerged: grate.EndColumnMerged}[s]
					e = Exp{Text: func(t string) bool { return t == s || s2 != "" && t == s2 }, Want: s}
				}
				want[pos{r, k}] = e
				n++
			}
		}
	}
	return
}

func caseC07(c *mon.Ctx) {
	r := c.Rand
	xls := r.IntN(2) == 0
	w := genBook(r, GenOpts{XLS: xls, MaxSheets: 3, MaxCells: 40, Formats: true})
	var key []interface{}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		n := r.IntN(6)
		if r.IntN(60) == 0 { // more ranges than one record holds
			n = 1100 + r.IntN(300)
			c.Count("many", 1)
		}
		add := func(m wb.Merge) {
			if xls && (m.R2 > 65535 || m.C2 > 255) || !xls && (m.R2 > 1048575 || m.C2 > 16383) {
				return
			}
			if (n < 100 || m.R2-m.R1 > 200 || m.C2 > 200) && overlaps(s.Merges, m) {
				return
			}
			s.Merges = append(s.Merges, m)
		}
		if n > 1000 {
			for k := 0; k < n; k++ {
				a := wb.Merge{R1: k / 8 * 3, C1: k % 8 * 3}
				a.R2, a.C2 = a.R1+r.IntN(3), a.C1+r.IntN(3)
				add(a)
			}
		} else {
			for k := 0; k < n; k++ {
				a := wb.Merge{R1: r.IntN(14), C1: r.IntN(14)}
				switch r.IntN(6) {
				case 0:
					a.R2, a.C2 = a.R1, a.C1+1+r.IntN(5)
				case 1:
					a.R2, a.C2 = a.R1+1+r.IntN(5), a.C1
				case 2:
					a.R1, a.C1 = 20+r.IntN(60), 20+r.IntN(30)
					a.R2, a.C2 = a.R1+r.IntN(9), a.C1+r.IntN(9)
				case 3:
					if len(s.Cells) > 0 { // anchored on a stored value
						x := s.Cells[r.IntN(len(s.Cells))]
						a.R1, a.C1 = x.Row, x.Col
					}
					a.R2, a.C2 = a.R1+r.IntN(3), a.C1+r.IntN(3)
				default:
					a.R2, a.C2 = a.R1+r.IntN(6), a.C1+r.IntN(6)
				}
				add(a)
			}
		}
		if r.IntN(50) == 0 { // whole columns or rows
			a := wb.Merge{R1: 0, C1: r.IntN(14), R2: 65535}
			a.C2 = a.C1 + r.IntN(3)
			if r.IntN(2) == 0 {
				a = wb.Merge{R1: r.IntN(14), C1: 0, C2: 255}
				a.R2 = a.R1 + 300*r.IntN(2)
			}
			if r.IntN(2) == 0 { // up to the last row or column
				if a.R2 == 65535 {
					a.R1 = r.IntN(30)
				} else {
					a.C1 = r.IntN(30)
				}
			}
			add(a)
			c.Count("huge", 1)
		}
		c.Count("ranges", len(s.Merges))
		r.Shuffle(len(s.Merges), func(i, j int) { s.Merges[i], s.Merges[j] = s.Merges[j], s.Merges[i] })
		key = append(key, len(s.Merges))
		if len(s.Merges) > 0 && len(s.Merges) < 100 {
			key = append(key, s.Merges)
		}
	}
	c.Key(shape(w), key)
	c.Note("xls=%v %s %v", xls, describe(w), key)
	c.Artifact("model.txt", []byte(fmt.Sprintf("%+v", w)))
	var src grate.Source
	if xls {
		b, _ := wb.BuildXLS(w, randXLSOpts(r), randCFBOpts(r))
		c.Artifact("book.xls", b)
		src = mustOpen(c, c.File(".xls", b))
	} else {
		b, _, _ := wb.BuildXLSX(w, wb.RandXLSXOpts(r))
		c.Artifact("book.xlsx", b)
		src = mustOpen(c, c.File(".xlsx", b))
	}
	defer src.Close()
	for si := range w.Sheets {
		s := &w.Sheets[si]
		rows, capped := readAll(mustGet(c, src, s.Name))
		want := expSheet(w, s)
		er, ec := valueExtent(s)
		covered := 0
		for _, m := range s.Merges {
			for p := range want {
				if p.R >= m.R1 && p.R <= m.R2 && p.C >= m.C1 && p.C <= m.C2 && (p.R > m.R1 || p.C > m.C1) {
					covered++
					delete(want, p)
				}
			}
			if m.R2 >= er || m.C2 >= ec {
				c.Count("past_extent", 1)
			}
		}
		c.Count("covered_values", covered)
		n, free := addMarkers(want, s.Merges, er, ec, xls)
		c.Count("markers", n)
		if capped {
			c.Count("capped", 1)
			continue
		}
		// beyond the extent, a huge range may or may not be marked
		for _, m := range free {
			for i := m.R1; i < len(rows) && i <= m.R2; i++ {
				for k := m.C1; k <= m.C2 && k < rows[i].N; k++ {
					if rows[i].Blank || i == m.R1 && k == m.C1 || i < er && k < ec {
						continue
					}
					if markers[rows[i].S[k]] {
						s := rows[i].S[k]
						want[pos{i, k}] = Exp{Text: exact(s)}
					}
				}
			}
		}
		compareSheet(c, q(s.Name), rows, want)
	}
}

// valueExtent is the area of the cells that hold a value.
func valueExtent(s *wb.Sheet) (rows, cols int) {
	t := wb.Sheet{}
	for _, c := range s.Cells {
		if c.Kind != wb.Blank && ((c.Kind != wb.Str && c.Kind != wb.FStr) || c.Str != "") {
			t.Cells = append(t.Cells, c)
		}
	}
	return t.Extent()
}
