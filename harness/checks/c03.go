package checks

import (
	"math/rand/v2"
	"strings"
	"unicode/utf16"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C03", Quick: 10000, Thorough: 400000,
		Rule:      "each case writes text cells (lengths 0 to 32767, any planes of Unicode, 8/16-bit storage, rich-text runs, phonetic data, formula results, random split points over CONTINUE records with width changes; XML escapes, CDATA, character references, rich and phonetic runs) to an XLS or an XLSX file and compares Strings, Types and Scan(*string) with the model; one third of the cases gives the (non numeric) texts every kind of built-in and custom number and date format; distinct = distinct sets of (length, storage, split) tuples; a case without a text cell is trivial",
		Assume:    []string{"control characters, lone surrogates, _xHHHH_ escapes and strings equal to a merge marker are not generated", "formats with a text section of their own are excluded", "text that reads as a decimal number only carries General"},
		MinEvents: map[string]int{"cells": 30000, "split_chars": 1000, "split_width_change": 200, "split_runs": 200, "split_phonetic": 200, "split_header": 200, "formula_splits": 200, "formatted_text": 3000, "numeric_text": 1000, "long": 100},
		Case:      caseC03,
	})
}

// textFmts are formats a text may carry without being changed.
var textFmts = []wb.Fmt{
	{ID: 1}, {ID: 2}, {ID: 3}, {ID: 4}, {ID: 9}, {ID: 10}, {ID: 11}, {ID: 12}, {ID: 13}, {ID: 14}, {ID: 15}, {ID: 16}, {ID: 17}, {ID: 18}, {ID: 19}, {ID: 20}, {ID: 21}, {ID: 22},
	{ID: 37}, {ID: 38}, {ID: 39}, {ID: 40}, {ID: 41}, {ID: 42}, {ID: 43}, {ID: 44}, {ID: 45}, {ID: 46}, {ID: 47}, {ID: 48}, {ID: 49},
	{ID: 27}, {ID: 31}, {ID: 33}, {ID: 34}, {ID: 36}, {ID: 50}, {ID: 55}, {ID: 57}, {ID: 59}, {ID: 60}, {ID: 61}, {ID: 62}, {ID: 67}, {ID: 68}, {ID: 69}, {ID: 70}, {ID: 71}, {ID: 77}, {ID: 79}, {ID: 80}, {ID: 81},
	{ID: 164, Code: "0.000"}, {ID: 165, Code: "#,##0.0"}, {ID: 166, Code: "0.0%"}, {ID: 167, Code: "0.00;(0.00)"}, {ID: 168, Code: "0.00E+00"}, {ID: 169, Code: "yyyy-mm-dd"},
	{ID: 170, Code: "hh:mm:ss"}, {ID: 171, Code: "0.0;-0.0;\"zero\""}, {ID: 172, Code: "[h]:mm"}, {ID: 173, Code: "dddd, mmmm d, yyyy"}, {ID: 174, Code: "h:mm AM/PM"}, {ID: 175, Code: "$#,##0.00"},
	{ID: 176, Code: "# ?/?"}, {ID: 177, Code: "\"kg \"0.0"}, {ID: 178, Code: "#"}, {ID: 179, Code: "[Red]0;[Blue]-0"}, {ID: 180, Code: "General"}, {ID: 200, Code: "@"},
}

func randLen(r *rand.Rand, long bool) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 255 + r.IntN(3) - 1
	case 3:
		return 4110 + r.IntN(8)
	case 4:
		return 8215 + r.IntN(16)
	case 5:
		if long {
			return wb.Pick(r, 32767, 32766, 16384, 16447, 20000)
		}
		return 600
	default:
		return 1 + r.IntN(60)
	}
}

func caseC03(c *mon.Ctx) {
	r := c.Rand
	formatted := r.IntN(3) == 0
	xls := r.IntN(3) > 0
	w := &wb.Workbook{Fmts: []wb.Fmt{{}}}
	if formatted {
		for _, i := range r.Perm(len(textFmts))[:1+r.IntN(8)] {
			w.Fmts = append(w.Fmts, textFmts[i])
		}
	}
	budget := 40000
	huge := 0
	if r.IntN(12) == 0 {
		huge = 2
	}
	ns := 1 + r.IntN(2)
	used := map[string]bool{}
	var key []interface{}
	for si := 0; si < ns; si++ {
		s := wb.Sheet{Name: randSheetName(r, used), DimRows: -1, DimCols: -1}
		n := 1 + r.IntN(25)
		if r.IntN(20) == 0 {
			n = 300
		}
		for i := 0; i < n; i++ {
			cell := wb.Cell{Row: i / 4, Col: i % 4, Kind: wb.Str}
			switch {
			case formatted || r.IntN(3) == 0:
				cell.Str = randText(r, 400)
			default:
				l := randLen(r, !formatted)
				if l > budget || n > 100 {
					l = 1 + r.IntN(40)
				}
				budget -= l
				cell.Str = fixText(randRunes(r, l), 32767)
				if l > 0 && len(utf16.Encode([]rune(cell.Str))) > 4000 {
					c.Count("long", 1)
				}
			}
			if cell.Str != "" && r.IntN(6) == 0 { // a wide character among narrow ones
				k := r.IntN(len([]rune(cell.Str)))
				rs := []rune(cell.Str)
				rs[k] = 'Ж'
				cell.Str = string(rs)
			}
			if formatted && r.IntN(4) == 0 { // not a number, but its text
				cell.Str = wb.Pick(r, "00123", "45000", "1e5", "-0", "1.50", "+5", " 12", "12 ", "0x1F", "1,234", "TRUE", "no", "0.5", ".5", "1E-3", "007", "9007199254740993", "-12.30", "1/2", "50%", "2020-01-02", "Inf", "NaN", "1_000", "99999999999999999999", "44197.5")
				c.Count("numeric_text", 1)
			}
			if formatted {
				cell.Fmt = r.IntN(len(w.Fmts))
				if cell.Fmt > 0 {
					c.Count("formatted_text", 1)
				}
			}
			if r.IntN(4) == 0 {
				cell.Kind = wb.FStr
				l := len(utf16.Encode([]rune(cell.Str)))
				for p := 0; p < l && r.IntN(3) > 0; {
					p += 1 + r.IntN(1+l/2)
					cell.Splits = append(cell.Splits, p)
					cell.SplitW = append(cell.SplitW, r.IntN(2) == 0)
				}
				cell.SplitW = append(cell.SplitW, r.IntN(2) == 0)
			} else {
				cell.Inline = r.IntN(3) == 0
				cell.Runs = wb.Pick(r, 0, 0, 0, 1, 2, 5, 40)
				if n > 100 && cell.Runs > 5 {
					cell.Runs = 0
				}
				cell.Phon = wb.Pick(r, 0, 0, 0, 2, 16, 500)
				if xls && !cell.Inline && huge > 0 && r.IntN(4) == 0 { // more than 16 bits of bytes
					huge--
					if r.IntN(2) == 0 {
						cell.Runs = wb.Pick(r, 8191, 8192, 16383, 16384, 16385, 32767, 32768)
					} else {
						cell.Phon = wb.Pick(r, 32768, 65534, 65536, 65538, 131072)
					}
					c.Count("huge_trailers", 1)
				}
			}
			cell.Wide = r.IntN(3) == 0
			key = append(key, len(cell.Str), cell.Kind, cell.Fmt, cell.Runs, cell.Phon)
			s.Cells = append(s.Cells, cell)
		}
		w.Sheets = append(w.Sheets, s)
	}
	c.Key(key...)
	c.Note("xls=%v formatted=%v %s", xls, formatted, describe(w))
	var src grate.Source
	if xls {
		o := randXLSOpts(r)
		scaleXLS(c, &o)
		o.SSTSplit = wb.Pick(r, 0, 4, 10, 50, 500, 3000)
		b, st := wb.BuildXLS(w, o, randCFBOpts(r))
		c.Artifact("book.xls", b)
		c.Count("split_chars", st.SplitChars)
		c.Count("split_width_change", st.Flips)
		c.Count("split_runs", st.SplitRuns)
		c.Count("split_phonetic", st.SplitPhon)
		c.Count("split_header", st.SplitHdr)
		c.Count("formula_splits", st.FormulaSplits)
		src = mustOpen(c, c.File(".xls", b))
	} else {
		o := wb.RandXLSXOpts(r)
		scaleXLSX(c, &o)
		o.TextStyle = r.IntN(4)
		b, _, st := wb.BuildXLSX(w, o)
		c.Count("xlsx_escapes", st.Escapes)
		c.Artifact("book.xlsx", b)
		src = mustOpen(c, c.File(".xlsx", b))
	}
	defer src.Close()
	for i := range w.Sheets {
		s := &w.Sheets[i]
		rows, _ := readAll(mustGet(c, src, s.Name))
		want := expSheet(w, s)
		for p, e := range want {
			e.Fmt = nil
			want[p] = e
		}
		compareSheet(c, q(s.Name), rows, want)
	}
	_ = strings.TrimSpace
}
