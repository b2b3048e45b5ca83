package checks

import (
	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C01", Quick: 10000, Thorough: 400000,
		Rule:      "each case writes a random logical workbook (1-4 sheets; numbers in all decimal forms, shared/inline/rich/phonetic text, booleans, errors, formulas with every cached result kind, formatted blanks) as an XLSX package with a random legal XML/ZIP layout (namespaces of either variant, UTF-8 or UTF-16, part names in any case) using a writer independent of grate, opens it with grate.Open, and compares every position of every sheet (text, type, Scan value, format) with the model; distinct = distinct (layout options, cell kinds, positions); trivial cases are those with no stored cell",
		Assume:    []string{"the independent writer produces well-formed packages", "strings equal to a merge marker are not generated"},
		MinEvents: map[string]int{"cells": 20000, "sheets": 3000, "norefs": 100, "strict": 100, "utf16_parts": 100, "renamed_parts": 100, "inline": 500, "formula": 500},
		Case:      caseC01,
	})
	mon.Register(&mon.Check{
		ID: "C02", Quick: 40000, Thorough: 1500000,
		Rule:      "each case writes a random logical workbook as BIFF8 records (all number encodings, shared strings, booleans, errors, formulas with every result kind, unrelated records, embedded chart substreams holding cell-like records, shuffled record and sheet order) inside a compound file, opens it with grate.Open and compares every position of every sheet with the model; distinct = distinct (cell kinds, positions, encodings)",
		Assume:    []string{"the independent writer produces well-formed workbooks", "each position is stored at most once"},
		MinEvents: map[string]int{"cells": 20000, "sheets": 3000, "rk": 2000, "mulrk": 500, "charts": 500, "noise": 2000},
		Case:      caseC02,
	})
}

func caseC01(c *mon.Ctx) {
	r := c.Rand
	w := genBook(r, GenOpts{MaxSheets: 4, MaxCells: 40, Formats: true, Hidden: true, Big: true, LongText: true, Scale: true})
	o := wb.RandXLSXOpts(r)
	scaleXLSX(c, &o)
	b, _, st := wb.BuildXLSX(w, o)
	c.Artifact("book.xlsx", b)
	c.Note("%+v %s", o, describe(w))
	o.Rand = nil
	c.Key(o, shape(w))
	c.Count("inline", st.Inline)
	c.Count("formula", st.Formula)
	c.Count("rich", st.Rich)
	c.Count("escapes", st.Escapes)
	c.Count("utf16_parts", st.UTF16)
	for n, on := range map[string]bool{"norefs": o.NoRefs > 0, "strict": o.Strict, "renamed_parts": o.CaseParts} {
		if on {
			c.Count(n, 1)
		}
	}
	src := mustOpen(c, c.File(wb.Pick(r, ".xlsx", ".xlsx", ".xlsm", ".dat", ""), b))
	defer src.Close()
	for i := range w.Sheets {
		s := &w.Sheets[i]
		rows, capped := readAll(mustGet(c, src, s.Name))
		if capped {
			c.Count("capped", 1)
			continue
		}
		c.Count("sheets", 1)
		compareSheet(c, q(s.Name), rows, expSheet(w, s))
	}
}

func caseC02(c *mon.Ctx) {
	r := c.Rand
	w := genBook(r, GenOpts{XLS: true, MaxSheets: 4, MaxCells: 40, Formats: true, Hidden: true, Charts: true, Big: true, LongText: true, Scale: true})
	o := randXLSOpts(r)
	scaleXLS(c, &o)
	o.SheetOrder = shuffledOrder(r, len(w.Sheets))
	b, st := wb.BuildXLS(w, o, randCFBOpts(r))
	c.Artifact("book.xls", b)
	c.Note("records %d noise %d mulrk %d %s", st.Records, st.Noise, st.MulRk, describe(w))
	c.Key(shape(w), o.CellOrder, o.Noise > 0, o.SheetOrder)
	c.Count("mulrk", st.MulRk)
	c.Count("noise", st.Noise)
	src := mustOpen(c, c.File(wb.Pick(r, ".xls", ".xls", ".dat", ""), b))
	defer src.Close()
	for i := range w.Sheets {
		s := &w.Sheets[i]
		c.Count("charts", s.Charts)
		for _, cell := range s.Cells {
			if cell.Kind == wb.Num && cell.Enc != wb.EncNumber {
				c.Count("rk", 1)
			}
		}
		rows, capped := readAll(mustGet(c, src, s.Name))
		if capped {
			c.Count("capped", 1)
			continue
		}
		c.Count("sheets", 1)
		compareSheet(c, q(s.Name), rows, expSheet(w, s))
	}
}
