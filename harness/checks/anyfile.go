package checks

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Subs["solo"] = subSolo
}

// anyFile makes the bytes of a random file; good tells that it can be opened.
func anyFile(r *rand.Rand, cells int, damaged bool) (b []byte, ext, kind string, good bool) {
	if damaged {
		switch r.IntN(9) {
		case 0:
			return []byte("\x7fELF" + strings.Repeat("\x00binary\xff", 1+r.IntN(40))), ".bin", "unknown", false
		case 1:
			b, _ = wb.BuildXLS(anyBook(r, true, cells), randXLSOpts(r), randCFBOpts(r))
			return b[:r.IntN(len(b))], ".xls", "cut xls", false
		case 2:
			b, _, _ = wb.BuildXLSX(anyBook(r, false, cells), wb.RandXLSXOpts(r))
			return b[:r.IntN(len(b))], ".xlsx", "cut xlsx", false
		case 3: // records damaged
			o := randXLSOpts(r)
			recs, _ := wb.BuildXLSRecords(anyBook(r, true, cells), o)
			for i, n := 0, 1+r.IntN(3); i < n; i++ {
				k := r.IntN(len(recs))
				switch d := recs[k].Data; {
				case len(d) == 0 || r.IntN(4) == 0:
					recs = append(recs[:k:k], recs[k+1:]...)
				case r.IntN(3) == 0:
					recs[k].Data = d[:r.IntN(len(d))]
				default:
					d = append([]byte{}, d...)
					d[r.IntN(len(d))] = byte(r.Uint32())
					recs[k].Data = d
				}
				if len(recs) == 0 {
					break
				}
			}
			b, _ = wb.WriteCFB(wb.XLSEntries(wb.JoinRecs(recs), r), randCFBOpts(r))
			return b, ".xls", "damaged xls", false
		case 4: // parts damaged
			parts, _ := wb.XLSXParts(anyBook(r, false, cells), wb.RandXLSXOpts(r))
			k := r.IntN(len(parts))
			if r.IntN(3) == 0 || len(parts[k].Data) == 0 {
				parts = append(parts[:k:k], parts[k+1:]...)
			} else {
				parts[k].Data = parts[k].Data[:r.IntN(len(parts[k].Data))]
			}
			return wb.ZipParts(parts, wb.RandXLSXOpts(r)), ".xlsx", "damaged xlsx", false
		case 5:
			o := randXLSOpts(r)
			o.Encrypt, o.Password, o.Salt = true, "another", randBytes(r, 16)
			b, _ = wb.BuildXLS(anyBook(r, true, cells), o, randCFBOpts(r))
			return b, ".xls", "password", false
		case 6:
			b, _ = wb.BuildXLS(anyBook(r, true, cells), randXLSOpts(r), randCFBOpts(r))
			return mutateRaw(r, b), ".xls", "flipped xls", false
		case 7:
			b, _, _ = wb.BuildXLSX(anyBook(r, false, cells), wb.RandXLSXOpts(r))
			return mutateRaw(r, b), ".xlsx", "flipped xlsx", false
		default: // not CSV
			return []byte("a,\"b\nc,d\n" + strings.Repeat("x,y\n", r.IntN(5)) + "\"e\"f,g\n\x00"), ".csv", "bad csv", false
		}
	}
	switch r.IntN(8) {
	case 0, 1:
		b, _ = wb.BuildXLS(anyBook(r, true, cells), randXLSOpts(r), randCFBOpts(r))
		return b, ".xls", "xls", true
	case 2:
		o := randXLSOpts(r)
		o.Encrypt, o.Salt = true, randBytes(r, 16)
		b, _ = wb.BuildXLS(anyBook(r, true, cells), o, randCFBOpts(r))
		return b, ".xls", "encrypted xls", true
	case 3, 4, 5:
		b, _, _ = wb.BuildXLSX(anyBook(r, false, cells), wb.RandXLSXOpts(r))
		return b, ".xlsx", "xlsx", true
	}
	ext, sep := ".tsv", "\t"
	if r.IntN(2) == 0 {
		ext, sep = ".csv", ","
	}
	var t strings.Builder
	nc := 2 + r.IntN(6)
	for i, n := 0, 1+r.IntN(cells+2); i < n; i++ {
		for k := 0; k < nc; k++ {
			if k > 0 {
				t.WriteString(sep)
			}
			fmt.Fprintf(&t, "%s%d", wb.Pick(r, "", "v", "text ", "é", "-"), r.IntN(1000))
		}
		t.WriteString("\n")
	}
	return []byte(t.String()), ext, ext[1:], true
}

// solo is what a source returns when it is used alone.
type solo struct {
	Err    string
	List   []string
	Sheets map[string]*soloSheet
}

type soloSheet struct {
	Err, EndErr string
	Empty       bool
	Rows        []string
}

func allNames(src grate.Source) ([]string, error) {
	names, err := src.List()
	if err != nil {
		return nil, err
	}
	if h, ok := src.(hiddenLister); ok {
		hn, err := h.ListHidden()
		if err != nil {
			return nil, err
		}
		names = append(append([]string{}, names...), hn...)
	}
	return names, nil
}

const soloRows = 4000

func errText(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

// readSheet reads a sheet, up to soloRows rows.
func readSheet(src grate.Source, name string, yield func()) *soloSheet {
	s := &soloSheet{}
	col, err := src.Get(name)
	if err != nil {
		s.Err = errText(err)
		return s
	}
	yield()
	s.Empty = col.IsEmpty()
	for len(s.Rows) < soloRows && col.Next() {
		s.Rows = append(s.Rows, rowText(readRow(col)))
		yield()
	}
	s.EndErr = errText(col.Err())
	return s
}

func rowText(r Row) string {
	if r.Blank {
		return fmt.Sprintf("%d blank", r.N)
	}
	return fmt.Sprintf("%d %q %q %q %v %v", r.N, r.S, r.T, r.F, r.V, r.SErr)
}

func readSolo(path string, yield func()) *solo {
	res := &solo{Sheets: map[string]*soloSheet{}}
	src, err := grate.Open(path)
	if err != nil {
		res.Err = errText(err)
		return res
	}
	defer src.Close()
	yield()
	res.List, err = allNames(src)
	if err != nil {
		res.Err = "list " + errText(err)
		return res
	}
	for _, n := range res.List {
		yield()
		res.Sheets[n] = readSheet(src, n, yield)
	}
	return res
}

func subSolo(args []string) int {
	enc := json.NewEncoder(os.Stdout)
	for _, p := range args {
		enc.Encode(readSolo(p, func() {}))
	}
	return 0
}

// runSolo reads the file in a process of its own.
func runSolo(c *mon.Ctx, path string) *solo {
	out, errOut, err := mon.RunSub(5*time.Minute, "solo", path)
	if err != nil {
		c.Fatal("solo", "reading %s alone: %v\n%s", filepath.Base(path), err, errOut)
	}
	// a round trip through JSON replaces broken UTF-8
	var s solo
	c.Must(json.Unmarshal([]byte(out), &s))
	return &s
}

// valid8 is what the round trip makes of a text.
func valid8(s string) string { return string([]rune(s)) }

func diffSheet(a, b *soloSheet) string {
	switch {
	case a == nil || b == nil:
		return "sheet is missing"
	case (a.Err != "") != (b.Err != ""):
		return fmt.Sprintf("Get alone: %q, now: %q", a.Err, b.Err)
	case a.Empty != b.Empty:
		return fmt.Sprintf("IsEmpty alone %v, now %v", a.Empty, b.Empty)
	case (a.EndErr != "") != (b.EndErr != ""):
		return fmt.Sprintf("Err alone: %q, now: %q", a.EndErr, b.EndErr)
	}
	for i := 0; i < len(a.Rows) || i < len(b.Rows); i++ {
		x, y := "no row", "no row"
		if i < len(a.Rows) {
			x = a.Rows[i]
		}
		if i < len(b.Rows) {
			y = valid8(b.Rows[i])
		}
		if x != y {
			return fmt.Sprintf("row %d alone: %s, now: %s", i, q(x), q(y))
		}
	}
	return ""
}

func diffSolo(a, b *solo) string {
	if (a.Err != "") != (b.Err != "") {
		return fmt.Sprintf("Open or List alone: %q, now: %q", a.Err, b.Err)
	}
	if x, y := fmt.Sprintf("%q", a.List), valid8(fmt.Sprintf("%q", b.List)); x != y {
		return fmt.Sprintf("sheets alone: %s, now: %s", x, y)
	}
	for n := range a.Sheets {
		if d := diffSheet(a.Sheets[n], b.Sheets[n]); d != "" {
			return "sheet " + q(n) + ": " + d
		}
	}
	return ""
}

// anyBook is a richBook, sometimes with cells far away from the others.
func anyBook(r *rand.Rand, isXLS bool, cells int) *wb.Workbook {
	w := richBook(r, isXLS, cells)
	rareThings(r, w, isXLS)
	if r.IntN(10) > 0 {
		return w
	}
	s := &w.Sheets[r.IntN(len(w.Sheets))]
	tall := r.IntN(30) == 0
	used := map[[2]int]bool{}
	for _, c := range s.Cells {
		used[[2]int{c.Row, c.Col}] = true
	}
	for k := range s.Cells {
		if r.IntN(3) > 0 {
			continue
		}
		row, col := s.Cells[k].Row, s.Cells[k].Col
		switch {
		case tall && isXLS:
			row = r.IntN(65536)
		case tall:
			row = 60000 + r.IntN(12000)
		case isXLS:
			col = r.IntN(256)
		case r.IntN(4) == 0:
			col = r.IntN(16384)
		default:
			col = 200 + r.IntN(200)
		}
		if !used[[2]int{row, col}] {
			used[[2]int{row, col}] = true
			s.Cells[k].Row, s.Cells[k].Col = row, col
		}
	}
	return w
}

// rareThings adds rarer kinds of formats, error codes and sheets.
func rareThings(r *rand.Rand, w *wb.Workbook, isXLS bool) {
	first := len(w.Fmts)
	for i, n := 0, r.IntN(4); i < n; i++ {
		w.Fmts = append(w.Fmts, wb.Pick(r,
			wb.Fmt{ID: wb.Pick(r, 12, 13)}, wb.Fmt{ID: wb.Pick(r, 9, 10, 11, 37, 40, 44, 45, 47, 48, 49)},
			wb.Fmt{ID: 27 + r.IntN(10)}, wb.Fmt{ID: 50 + r.IntN(9)},
			wb.Fmt{ID: 200 + i, Code: "# " + wb.Pick(r, "?", "??", "???") + "/" + wb.Pick(r, "2", "4", "8", "10", "16", "32", "100", "?", "??", "???")},
			wb.Fmt{ID: 210 + i, Code: wb.Pick(r, "yyyy\"年\"m\"月\"d\"日\"", "上午/下午h\"时\"mm\"分\"", "[$-804]aaaa", "mmmmm", "[mm]:ss.0", "[s]", "dddd, mmmm d")},
			wb.Fmt{ID: 220 + i, Code: wb.Pick(r, "0.00E+00", "##0.0E+0", "0%", "0.000,,", "[>=100]0;[<0]\"minus\" 0.0;0.00", "\"$\"#,##0.00_);\\(\"$\"#,##0.00\\)", "000-00-0000", "@\" text\"")}))
	}
	for si := range w.Sheets {
		s := &w.Sheets[si]
		for k := range s.Cells {
			c := &s.Cells[k]
			if (c.Kind == wb.Num || c.Kind == wb.FNum) && len(w.Fmts) > first && r.IntN(3) == 0 {
				c.Fmt = first + r.IntN(len(w.Fmts)-first)
			}
			if (c.Kind == wb.Err || c.Kind == wb.FErr) && isXLS && r.IntN(5) == 0 {
				c.Err = wb.Pick[byte](r, 1, 0x2C, 0x30, 0xFF, byte(r.IntN(256)))
			}
		}
		if isXLS && s.Type == 0 && len(w.Sheets) > 1 && si > 0 && r.IntN(12) == 0 {
			s.Dialog, s.Cells, s.Merges, s.Links = true, nil, nil, nil
		}
	}
}
