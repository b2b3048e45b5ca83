package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C08", Quick: 40000, Thorough: 2000000,
		Rule:      "each case attaches up to eight hyperlinks to a random workbook (XLS: URL moniker with and without GUID tail, file moniker 8-bit and Unicode, target saved as string, display, frame and location strings; XLSX: external relationship, with location, missing relationship; both: internal locations, single cells and ranges, on values, blanks, past the sheet area, over merged cells) and compares every position with the model: target cells contain the target, all others their own content; distinct = distinct (link kinds, ranges, cell positions); trivial = no link",
		Assume:    []string{"targets have no leading or trailing white space", "XLSX shows a range link on its first cell", "blank cells under an XLS range link may be blank or carry a merge marker"},
		MinEvents: map[string]int{"links_external": 5000, "links_internal": 1500, "links_missing": 300, "moniker_1": 300, "moniker_2": 300, "moniker_3": 300, "moniker_4": 300, "ranges": 1000, "over_values": 2000, "under_range_values": 300, "many_links": 40, "with_location": 2000},
		Case:      caseC08,
	})
}

func randTarget(r *rand.Rand, ascii bool) string {
	t := wb.Pick(r, "http://example.com/", "https://x.test/a?b=1&c=2", "mailto:me@example.com?subject=hi%20there", "file:///c:/tmp/a.txt", "..\\docs\\book.xls", "\\\\server\\share\\f.txt", "ftp://h/p", "a.html#frag", "http://e/"+strings.Repeat("long/", 300), "x", "C:\\a b\\c.xls", "http://e/%E2%82%AC", "http://e/'q'\"d\"<x>")
	if r.IntN(3) == 0 {
		t += fmt.Sprint(r.IntN(100000))
	}
	if r.IntN(25) == 0 {
		t = wb.Pick(r, "a", "/", "12", "a.b", "é")
		if ascii {
			t = "a"
		}
	}
	if r.IntN(25) == 0 { // up to the length Excel allows
		t = "http://e/" + strings.Repeat("q", wb.Pick(r, 230+r.IntN(60), 1000+r.IntN(60), r.IntN(2070)))
	}
	if !ascii && r.IntN(3) == 0 {
		t += randRunes(r, 1+r.IntN(6))
	}
	return strings.Map(func(c rune) rune {
		if c == 0xA0 || c == 0x200B || c == 0xFEFF || c == ' ' {
			return '_'
		}
		return c
	}, strings.TrimSpace(t))
}

func caseC08(c *mon.Ctx) {
	r := c.Rand
	xls := r.IntN(2) == 0
	w := genBook(r, GenOpts{XLS: xls, MaxSheets: 3, MaxCells: 40, Formats: true, Charts: xls})
	var key []interface{}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		var taken []wb.Merge
		if r.IntN(4) == 0 {
			m := wb.Merge{R1: r.IntN(10), C1: r.IntN(10)}
			m.R2, m.C2 = m.R1+r.IntN(3), m.C1+1+r.IntN(3)
			s.Merges = append(s.Merges, m)
			taken = append(taken, m)
		}
		nl := r.IntN(6)
		if s.Type == 0 && r.IntN(600) == 0 {
			nl = wb.Pick(r, 140, 270, 300, 1100)
			if r.IntN(4) == 0 {
				nl = 5000
			}
			c.Count("many_links", 1)
		}
		for k := nl; k > 0; k-- {
			l := wb.Link{R1: r.IntN(14), C1: r.IntN(14)}
			if nl > 100 {
				l = wb.Link{R1: k / 3, C1: k % 3 * 4}
			}
			if len(s.Cells) > 0 && r.IntN(2) == 0 {
				x := s.Cells[r.IntN(len(s.Cells))]
				l.R1, l.C1 = x.Row, x.Col
			}
			l.R2, l.C2 = l.R1, l.C1
			if r.IntN(4) == 0 {
				l.R2, l.C2 = l.R1+r.IntN(4), l.C1+r.IntN(4)
			}
			if len(s.Merges) == 1 && len(s.Links) == 0 && r.IntN(2) == 0 { // exactly over the merged cells
				m := s.Merges[0]
				l.R1, l.C1, l.R2, l.C2 = m.R1, m.C1, m.R2, m.C2
			} else if overlaps(taken, wb.Merge{R1: l.R1, C1: l.C1, R2: l.R2, C2: l.C2}) {
				continue
			}
			taken = append(taken, wb.Merge{R1: l.R1, C1: l.C1, R2: l.R2, C2: l.C2})
			switch r.IntN(5) {
			case 0:
				l.Location = wb.Pick(r, "Sheet1!A1", "'a b'!$C$3", "name_1")
			case 1:
				if !xls {
					l.MissingRel = true
				}
				fallthrough
			default:
				l.Moniker = r.IntN(5)
				l.Target = randTarget(r, xls && l.Moniker == 1)
				if r.IntN(4) == 0 {
					l.Location = wb.Pick(r, "top", "Sheet1!B2", "'Überblick ☃'!B2", "a#b", "#", "x=1&y=2", strings.Repeat("loc", 1+r.IntN(80)), "😀")
				}
			}
			if r.IntN(2) == 0 {
				l.Display = wb.Pick(r, "click", "Ünïcode ☃", "a <b>", "x y", "日本", "😀 ok", "two\nlines", "12.50", "TRUE")
				if xls && r.IntN(15) == 0 {
					l.Display = strings.Repeat("D", wb.Pick(r, 255, 256, 1024, 1+r.IntN(1500)))
					c.Count("long_display", 1)
				}
			}
			if xls && r.IntN(4) == 0 {
				l.Frame = wb.Pick(r, "_blank", "frame1", "Rahmen ☃")
			}
			l.GUID, l.Time = xls && r.IntN(6) == 0, xls && r.IntN(6) == 0
			s.Links = append(s.Links, l)
			key = append(key, l.Moniker, l.R1, l.C1, l.R2, l.C2, l.Target != "", l.Location != "", l.Display, l.MissingRel)
		}
	}
	c.Key(xls, shape(w), key)
	c.Note("xls=%v %s links %v", xls, describe(w), key)
	c.Artifact("model.txt", []byte(fmt.Sprintf("%+v", w)))
	var src grate.Source
	if xls {
		b, _ := wb.BuildXLS(w, randXLSOpts(r), randCFBOpts(r))
		c.Artifact("book.xls", b)
		src = mustOpen(c, c.File(".xls", b))
	} else {
		b, _, _ := wb.BuildXLSX(w, wb.RandXLSXOpts(r))
		c.Artifact("book.xlsx", b)
		src = mustOpen(c, c.File(".xlsx", b))
	}
	defer src.Close()
	for si := range w.Sheets {
		s := &w.Sheets[si]
		col := mustGet(c, src, s.Name)
		rows, capped := readAll(col)
		if capped {
			continue
		}
		want := expSheet(w, s)
		for _, l := range s.Links {
			if l.Target != "" && !l.MissingRel && col.IsEmpty() {
				c.Fatal("empty", "sheet %s is empty, but it shows the link %s", q(s.Name), q(l.Target))
			}
		}
		for _, m := range s.Merges {
			for p := range want {
				if p.R >= m.R1 && p.R <= m.R2 && p.C >= m.C1 && p.C <= m.C2 && (p.R > m.R1 || p.C > m.C1) {
					delete(want, p)
				}
			}
		}
		addMarkers(want, s.Merges, 0, 0, xls)
		for _, l := range s.Links {
			if l.Target == "" {
				c.Count("links_internal", 1)
				continue
			}
			if l.MissingRel {
				c.Count("links_missing", 1)
				continue
			}
			c.Count("links_external", 1)
			if l.Location != "" {
				c.Count("with_location", 1)
			}
			c.Count(fmt.Sprint("moniker_", l.Moniker), 1)
			if _, ok := want[pos{l.R1, l.C1}]; ok {
				c.Count("over_values", 1)
			}
			if l.R1 != l.R2 || l.C1 != l.C2 {
				c.Count("ranges", 1)
			}
			e := Exp{Want: l.Target}
			l := l
			e.Text = func(t string) bool {
				if !strings.Contains(t, l.Target) {
					return false
				}
				if xls {
					if !strings.Contains(t, l.Display) {
						return false
					}
					t = strings.Replace(t, l.Display, "", 1)
				}
				// nothing else but a location and delimiters
				if l.Location != "" {
					if !strings.Contains(t, l.Target+"#"+l.Location) {
						return false
					}
					t = strings.Replace(t, "#"+l.Location, "", 1)
				}
				t = strings.Replace(t, l.Target, "", 1)
				return strings.Trim(t, " <>()[]#") == ""
			}
			if xls {
				e.Want += " and " + l.Display
			} else {
				e.Types = []string{"hyperlink"}
			}
			want[pos{l.R1, l.C1}] = e
			if xls {
				for i := l.R1; i <= l.R2; i++ {
					for k := l.C1; k <= l.C2; k++ {
						p := pos{i, k}
						if _, ok := want[p]; ok {
							if i != l.R1 || k != l.C1 {
								c.Count("under_range_values", 1)
							}
							continue
						}
						if i < len(rows) && k < rows[i].N && !rows[i].Blank && markers[rows[i].S[k]] {
							want[p] = Exp{Text: func(t string) bool { return markers[t] }}
						}
					}
				}
			}
		}
		compareSheet(c, q(s.Name), rows, want)
	}
}
