package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

type anyCell struct {
	S, T, F string
	V       interface{}
}

func (a anyCell) String() string {
	return fmt.Sprintf("%s %s %s %T(%v)", q(a.S), a.T, q(a.F), a.V, q(fmt.Sprint(a.V)))
}

// gridOf returns the cells that are not blank.
func gridOf(c *mon.Ctx, rows []Row, what string) map[pos]anyCell {
	g := map[pos]anyCell{}
	for i, r := range rows {
		if r.Blank {
			continue
		}
		if r.SErr != nil {
			c.Fatal("scan", "%s row %d: Scan with the types %v: %v", what, i+1, r.T, r.SErr)
		}
		for k := range r.S {
			if r.S[k] == "" && r.T[k] == "blank" {
				continue
			}
			g[pos{i, k}] = anyCell{r.S[k], r.T[k], r.F[k], r.V[k]}
		}
	}
	return g
}

func xmlChar(c rune) rune {
	if c < ' ' || c == 0xFFFD || c == 0xFFFE || c == 0xFFFF {
		return -1
	}
	return c
}

// caseC04full compares everything both readers say about one workbook.
func caseC04full(c *mon.Ctx) {
	r := c.Rand
	w := genBook(r, GenOpts{XLS: true, MaxSheets: 3, MaxCells: 30, Formats: true, Hidden: true})
	nf := len(w.Fmts)
	for i, n := 0, r.IntN(6); i < n; i++ {
		if r.IntN(3) > 0 {
			w.Fmts = append(w.Fmts, wb.Fmt{ID: 200 + i, Code: strings.Map(xmlChar, fmtSoup(r))})
			c.Count("soup_formats", 1)
		} else {
			f := textFmts[r.IntN(len(textFmts))]
			dup := false
			for _, g := range w.Fmts {
				dup = dup || g.ID == f.ID
			}
			if !dup {
				w.Fmts = append(w.Fmts, f)
			}
		}
	}
	if w.Date1904 = r.IntN(5) == 0; w.Date1904 {
		c.Count("date1904", 1)
	}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		for k := range s.Cells {
			x := &s.Cells[k]
			if len(w.Fmts) > nf && r.IntN(3) > 0 {
				x.Fmt = r.IntN(len(w.Fmts))
			}
			if x.Kind == wb.Num && r.IntN(3) == 0 { // a date
				x.Enc, x.NumText = wb.EncNumber, ""
				x.Num = float64(r.IntN(60000))
				if r.IntN(2) == 0 {
					x.Num += float64(r.IntN(86400)) / 86400
				}
			}
		}
		for k, n := 0, r.IntN(3); k < n; k++ {
			m := wb.Merge{R1: r.IntN(12), C1: r.IntN(12)}
			m.R2, m.C2 = m.R1+r.IntN(4), m.C1+r.IntN(4)
			if !overlaps(s.Merges, m) && (m.R1 != m.R2 || m.C1 != m.C2) {
				s.Merges = append(s.Merges, m)
				c.Count("merges", 1)
			}
		}
		if r.IntN(8) == 0 {
			s.Cells, s.Merges = nil, nil
		}
	}
	c.Key(shape(w), fmt.Sprint(w.Fmts))
	c.Note("%s", describe(w))
	xo := randXLSOpts(r)
	scaleXLS(c, &xo)
	if r.IntN(8) == 0 {
		xo.Encrypt, xo.Salt = true, randBytes(r, 16)
		c.Count("encrypted", 1)
	}
	b1, _ := wb.BuildXLS(w, xo, randCFBOpts(r))
	c.Artifact("book.xls", b1)
	o := wb.RandXLSXOpts(r)
	scaleXLSX(c, &o)
	o.NoStyles = false
	b2, _, _ := wb.BuildXLSX(w, o)
	c.Artifact("book.xlsx", b2)
	x := mustOpen(c, c.File(".xls", b1))
	defer x.Close()
	y := mustOpen(c, c.File(".xlsx", b2))
	defer y.Close()
	lists := func(s grate.Source) string {
		l, err := s.List()
		if err != nil {
			c.Fatal("list", "List: %v", err)
		}
		all, err := allNames(s)
		if err != nil {
			c.Fatal("list", "ListHidden: %v", err)
		}
		visible := []string{}
		for _, n := range l {
			for _, s := range w.Sheets {
				if s.Name == n && s.Hidden == 0 {
					visible = append(visible, n)
				}
			}
		}
		sort.Strings(all)
		return fmt.Sprintf("%q all %q", visible, all)
	}
	if a, b := lists(x), lists(y); a != b {
		c.Fatal("list", "XLS: %s, XLSX: %s", a, b)
	}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		c.Count("sheets", 1)
		cx, cy := mustGet(c, x, s.Name), mustGet(c, y, s.Name)
		if a, b := cx.IsEmpty(), cy.IsEmpty(); a != b {
			c.Fatal("empty", "sheet %s: IsEmpty is %v for XLS, %v for XLSX", q(s.Name), a, b)
		}
		rx, capx := readAll(cx)
		ry, capy := readAll(cy)
		if capx || capy {
			continue
		}
		gx, gy := gridOf(c, rx, "XLS "+q(s.Name)), gridOf(c, ry, "XLSX "+q(s.Name))
		c.Count("cells", len(gx))
		for p, a := range gx {
			if !strings.EqualFold(a.F, "General") {
				c.Count("formatted", 1)
			}
			b, ok := gy[p]
			if !ok {
				c.Fatal("cell", "sheet %s %s: XLS: %v, XLSX: blank", q(s.Name), wb.Ref(p.R, p.C), a)
			}
			if a != b {
				stored := ""
				for _, x := range s.Cells {
					if x.Row == p.R && x.Col == p.C {
						stored = fmt.Sprintf("%+v", x)
					}
				}
				c.Fatal("cell", "sheet %s %s: XLS: %v, XLSX: %v; stored %s", q(s.Name), wb.Ref(p.R, p.C), a, b, stored)
			}
		}
		for p, b := range gy {
			if _, ok := gx[p]; !ok {
				c.Fatal("cell", "sheet %s %s: XLS: blank, XLSX: %v", q(s.Name), wb.Ref(p.R, p.C), b)
			}
		}
	}
}
