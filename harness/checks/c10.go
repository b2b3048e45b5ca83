package checks

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C10", Quick: 50000, Thorough: 2000000,
		Rule:      "each case writes a workbook (1-30 sheets: visible, hidden, very hidden, chart and dialog sheets, empty sheets, unusual names) or a text table, and runs a random history of 20-120 List/ListHidden/Get/Next/read/IsEmpty calls over several live collections of one source, comparing every answer with the model and every row with a reading from a separate source; distinct = distinct (formats, sheet kinds, operation sequence)",
		Assume:    []string{"the row current after Next returned false is not compared", "sheet names are distinct"},
		MinEvents: map[string]int{"ops": 100000, "rows_compared": 40000, "gets": 10000, "ends": 5000, "lists": 2000, "hidden_sheets": 1000, "empty_sheets": 1000, "chart_sheets": 200, "dialog_sheets": 100, "missing_names": 500, "interleaved": 5000},
		Case:      caseC10,
	})
}

func rowKey(r Row) string {
	if r.Blank {
		return fmt.Sprintf("%d blank", r.N)
	}
	return fmt.Sprintf("%d %q %q %q %v %v", r.N, r.S, r.T, r.F, r.V, r.SErr)
}

type hiddenLister interface{ ListHidden() ([]string, error) }

func caseC10(c *mon.Ctx) {
	r := c.Rand
	kind := r.IntN(5)
	var data []byte
	var names, visible, hidden []string
	empty := map[string]bool{}
	var w *wb.Workbook
	switch {
	case kind < 4:
		xls := kind < 2
		o := GenOpts{XLS: xls, MaxSheets: 5, MaxCells: 12, Formats: true, Hidden: true}
		if r.IntN(20) == 0 {
			o.MaxSheets, o.MaxCells = 30, 4
		}
		w = genBook(r, o)
		for si := range w.Sheets {
			s := &w.Sheets[si]
			if r.IntN(6) == 0 && !xls || xls && r.IntN(8) == 0 {
				s.Type, s.Cells = 2, nil
				c.Count("chart_sheets", 1)
			} else if xls && r.IntN(10) == 0 {
				s.Dialog, s.Cells = true, nil
				c.Count("dialog_sheets", 1)
			} else {
				if r.IntN(4) == 0 { // merged blanks are no data
					s.Merges = append(s.Merges, wb.Merge{R1: 3, C1: 3, R2: 4, C2: 5})
				}
				if r.IntN(6) == 0 {
					s.Cells = nil
				}
			}
			names = append(names, s.Name)
			if xls && s.Hidden > 0 {
				hidden = append(hidden, s.Name)
				c.Count("hidden_sheets", 1)
			} else {
				visible = append(visible, s.Name)
			}
			e := expSheet(w, s)
			uncover(e, s.Merges)
			if s.Type == 0 && !s.Dialog && r.IntN(6) == 0 { // a link is content
				row, col := 10+r.IntN(20), r.IntN(6)
				s.Links = append(s.Links, wb.Link{R1: row, C1: col, R2: row, C2: col, Moniker: wb.Pick(r, 0, 4), Target: "http://example.com/a"})
				if _, ok := e[pos{row, col}]; !ok {
					e[pos{row, col}] = Exp{}
				}
				c.Count("link_sheets", 1)
			}
			empty[s.Name] = len(e) == 0
			if len(e) == 0 {
				c.Count("empty_sheets", 1)
			}
		}
		if xls {
			xo := randXLSOpts(r)
			xo.SheetOrder = shuffledOrder(r, len(w.Sheets))
			data, _ = wb.BuildXLS(w, xo, randCFBOpts(r))
			c.Artifact("book.xls", data)
		} else {
			data, _, _ = wb.BuildXLSX(w, wb.RandXLSXOpts(r))
			c.Artifact("book.xlsx", data)
		}
	default:
		recs, _ := randTable(r, 1+r.IntN(8), 2+r.IntN(4))
		all := true
		for _, rec := range recs {
			for _, f := range rec {
				all = all && f == ""
			}
		}
		var b strings.Builder
		for _, rec := range recs {
			b.WriteString(strings.Join(rec, "\t") + "\n")
		}
		data = []byte(b.String())
		c.Artifact("table.tsv", data)
		empty[""] = all
	}
	p := c.File(wb.Pick(r, ".a", ".xls"), data)
	ref := mustOpen(c, p)
	if kind == 4 {
		l, err := ref.List()
		if err != nil || len(l) != 1 {
			c.Fatal("list", "List of a text file: %q %v", l, err)
		}
		names, visible = l, l
		empty[l[0]] = empty[""]
	}
	want := map[string][]string{}
	var order []string
	for _, i := range r.Perm(len(names)) {
		order = append(order, names[i])
	}
	for _, n := range order {
		rows, capped := readAll(mustGet(c, ref, n))
		if capped {
			return
		}
		if w != nil {
			for si := range w.Sheets {
				if s := &w.Sheets[si]; s.Name == n {
					e := expSheet(w, s)
					uncover(e, s.Merges)
					if s.Type == 0 && !s.Dialog {
						addMarkers(e, s.Merges, 1<<20, 1<<14, false)
					}
					if len(s.Links) == 0 { // else by C08
						compareSheet(c, q(n), rows, e)
					}
				}
			}
		}
		for _, row := range rows {
			want[n] = append(want[n], rowKey(row))
		}
	}
	ref.Close()
	if c.NBad() > 0 {
		return
	}

	src := mustOpen(c, p)
	defer src.Close()
	type cursor struct {
		col  grate.Collection
		name string
		at   int
		end  bool
	}
	var curs []*cursor
	var trace strings.Builder
	check := func(what string, got []string, err error, want []string) {
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fatal(what, "%s = %q (%v), want %q; history:%s", what, got, err, want, trace.String())
		}
		c.Count("lists", 1)
	}
	var ops []byte
	n := 20 + r.IntN(100)
	for i := 0; i < n; i++ {
		c.Count("ops", 1)
		op := r.IntN(12)
		if len(curs) == 0 && op >= 3 {
			op = 2
		}
		ops = append(ops, byte('a'+op))
		switch op {
		case 0:
			trace.WriteString(" List")
			l, err := src.List()
			check("List", l, err, visible)
			for j := range l {
				l[j] = "scribble"
			}
		case 1:
			if h, ok := src.(hiddenLister); ok {
				trace.WriteString(" ListHidden")
				l, err := h.ListHidden()
				check("ListHidden", l, err, hidden)
			} else if kind < 2 {
				c.Fatal("nohidden", "an XLS source has no ListHidden")
			}
		case 2, 3:
			name := names[r.IntN(len(names))]
			if r.IntN(12) == 0 && kind < 4 {
				bad := wb.Pick(r, "", "no such sheet", name+" ", strings.ToUpper(name)+"X", "\x00")
				for _, x := range names {
					if x == bad {
						bad = "another name that does not exist"
					}
				}
				fmt.Fprintf(&trace, " Get(%q)", bad)
				c.Count("missing_names", 1)
				if col, err := src.Get(bad); err == nil {
					c.Fatal("ghost", "Get(%q) of a sheet that does not exist gives %v; history:%s", bad, col != nil, trace.String())
				}
				continue
			}
			fmt.Fprintf(&trace, " Get(%q)=#%d", name, len(curs))
			col := mustGet(c, src, name)
			c.Count("gets", 1)
			curs = append(curs, &cursor{col: col, name: name, at: -1})
			if len(curs) > 6 {
				curs = curs[1:]
			}
		case 4:
			k := r.IntN(len(curs))
			fmt.Fprintf(&trace, " #%d.IsEmpty", k)
			if got := curs[k].col.IsEmpty(); got != empty[curs[k].name] {
				c.Fatal("isempty", "IsEmpty of %q = %v, want %v; history:%s", curs[k].name, got, empty[curs[k].name], trace.String())
			}
			if err := curs[k].col.Err(); err != nil {
				c.Fatal("err", "Err of %q: %v", curs[k].name, err)
			}
		default:
			k := r.IntN(len(curs))
			cu := curs[k]
			steps := 1 + r.IntN(3)
			if r.IntN(6) == 0 {
				steps = len(want[cu.name]) + 2
			}
			if len(curs) > 1 {
				c.Count("interleaved", 1)
			}
			for ; steps > 0; steps-- {
				fmt.Fprintf(&trace, " #%d.Next", k)
				ok := cu.col.Next()
				if ok != (cu.at+1 < len(want[cu.name])) {
					c.Fatal("next", "Next of %q after %d rows = %v, the sheet has %d rows; history:%s", cu.name, cu.at+1, ok, len(want[cu.name]), trace.String())
				}
				if !ok {
					c.Count("ends", 1)
					break
				}
				cu.at++
				reads := 1 + r.IntN(2)
				for ; reads > 0; reads-- {
					row := readRow(cu.col)
					c.Count("rows_compared", 1)
					if g := rowKey(row); g != want[cu.name][cu.at] {
						c.Fatal("row", "row %d of %q is %s, want %s; history:%s", cu.at+1, cu.name, q(g), q(want[cu.name][cu.at]), trace.String())
					}
					for _, l := range [][]string{row.S, row.T, row.F} {
						for j := range l {
							l[j] = "scribble"
						}
					}
				}
			}
		}
	}
	sort.Strings(hidden)
	sh := ""
	if w != nil {
		sh = shape(w)
	}
	c.Key(kind, sh, string(ops))
	c.Note("kind %d, %d sheets (%d hidden), history%s", kind, len(names), len(hidden), trace.String())
}

// randTable makes a rectangular table without tabs, commas, quotes or line breaks in its fields.
func randTable(r *rand.Rand, nr, nc int) (recs [][]string, shape string) {
	clean := strings.NewReplacer("\t", " ", "\n", " ", "\r", " ", ",", ";", "\"", "'", "\ufeff", "")
	for i := 0; i < nr; i++ {
		var rec []string
		for k := 0; k < nc; k++ {
			f := ""
			if r.IntN(4) > 0 {
				f = clean.Replace(randText(r, 30))
			}
			rec = append(rec, f)
		}
		recs = append(recs, rec)
	}
	return recs, fmt.Sprintf("%dx%d", nr, nc)
}

// uncover drops the values under merged ranges.
func uncover(e map[pos]Exp, ms []wb.Merge) (n int) {
	for _, m := range ms {
		for p := range e {
			if p.R >= m.R1 && p.R <= m.R2 && p.C >= m.C1 && p.C <= m.C2 && (p.R > m.R1 || p.C > m.C1) {
				delete(e, p)
				n++
			}
		}
	}
	return
}
