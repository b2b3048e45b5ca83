package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C14", Quick: 60000, Thorough: 3000000,
		Rule:      "each case writes a TSV or CSV file, most of them rectangular (1-60 columns, 0-3000 rows, fields of 0 to 300000 bytes, arbitrary text and bytes, blank fields and rows, numbers, quotes, separators of the other format, LF and CRLF, last line ended or not, random legal quoting) and compares every row, field, type and Scan with what was written, opened through grate.Open or the reader itself; distinct = distinct (kind, columns, rows, line ends, field classes)",
		Assume:    []string{"no NUL bytes, a byte order mark only in front of the text", "a carriage return is not the last character of a TSV or unquoted CSV field", "single-column CSV files have no empty lines and are opened with simple.OpenCSV", "tabs in CSV fields and commas in single-column TSV files only when the reader is named"},
		MinEvents: map[string]int{"tsv_files": 3000, "csv_files": 3000, "rows": 100000, "fields": 400000, "long_lines": 300, "quoted": 40000, "quoted_breaks": 3000, "crlf": 2000, "unterminated": 1000, "scans": 10000, "blank_rows": 1000, "via_open": 3000, "bom": 1000, "ragged": 3000, "ragged_large": 30, "over_65535_rows": 5, "over_65535_columns": 5, "over_1MB": 5},
		Case:      caseC14,
	})
}

type fieldOpts struct {
	csv    bool
	tabs   bool // tab allowed
	breaks bool
}

func randField(r *rand.Rand, o fieldOpts) (string, int) {
	kind := r.IntN(14)
	var s string
	switch kind {
	case 0:
		s = ""
	case 1:
		s = wb.Pick(r, " ", "  x", "x ", " x ")
	case 2:
		s = strconv.Itoa(r.IntN(100000) - 50000)
	case 3:
		s = strconv.FormatFloat(r.NormFloat64()*1000, 'g', 1+r.IntN(12), 64)
	case 4:
		s = wb.Pick(r, "true", "FALSE", "Yes", "no", "t", "0", "1", "N", "y")
	case 5:
		s = randRunes(r, 1+r.IntN(30))
	case 6:
		b := randBytes(r, 1+r.IntN(10))
		for i := range b {
			if b[i] < 0x20 || b[i] == 0x7F {
				b[i] = '.'
			}
		}
		s = string(b)
	case 7:
		s = wb.Pick(r, "\"", "\"\"", "a\"b", "\"a\"", "'", "\"a", "a\"", "\"\"\"", "\\\"")
	case 8:
		s = wb.Pick(r, ",", "a,b", ",,", ";", "|", ",a", "a,")
	case 9:
		s = wb.Pick(r, "#", "//", "=1+1", "sep=;", "-", "NULL", "\\N", "\\t", "%", "\x0b", "\x0c", "\u0085", "\u2028", "\u00a0")
	case 10:
		s = strings.Repeat(wb.Pick(r, "x", "ab", "é", "1"), 1+r.IntN(300))
	default:
		s = randRunes(r, 1+r.IntN(6))
	}
	if o.breaks && r.IntN(6) == 0 {
		br := wb.Pick(r, "\n", "\n\n", "\na", "b\n", "\r", "x\ry")
		i := r.IntN(len(s) + 1)
		s = s[:i] + br + s[i:]
		kind = 20
	}
	if o.tabs && r.IntN(10) == 0 {
		s += "\t" + wb.Pick(r, "", "x")
	}
	if !o.csv {
		s = strings.NewReplacer("\t", " ", "\n", " ", "\r", " ").Replace(s)
	}
	s = strings.ReplaceAll(s, "\r\n", "\n")
	for strings.HasPrefix(s, "\ufeff") {
		s = s[len("\ufeff"):]
	}
	if !o.csv || !o.breaks {
		s = strings.TrimRight(s, "\r")
	}
	return s, kind
}

func csvField(r *rand.Rand, s string, c *mon.Ctx, always bool) string {
	if always || strings.ContainsAny(s, ",\"\n\r") || r.IntN(4) == 0 {
		c.Count("quoted", 1)
		if strings.ContainsAny(s, "\n\r") {
			c.Count("quoted_breaks", 1)
		}
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

func caseC14(c *mon.Ctx) {
	r := c.Rand
	isCSV := r.IntN(2) == 0
	nc := 1 + r.IntN(8)
	nr := r.IntN(30)
	switch r.IntN(30) {
	case 0:
		nr = 300 + r.IntN(2700)
	case 1, 2:
		nc = 10 + r.IntN(50)
	case 3:
		nr = 8 + r.IntN(5)
	case 4:
		nr = 24 + r.IntN(5)
	}
	if nr > 300 && nc > 4 {
		nc = 1 + r.IntN(4)
	}
	huge := -1
	if r.IntN(1200) == 0 { // more than two bytes count
		huge = r.IntN(3)
		nr, nc = 1+r.IntN(3), 1+r.IntN(3)
		switch huge {
		case 0:
			nr = wb.Pick(r, 65000+r.IntN(20000), 100000+r.IntN(40000))
			if nr > 65536 {
				c.Count("over_65535_rows", 1)
			}
		case 1:
			nc = 65000 + r.IntN(5000)
			if nc > 65536 {
				c.Count("over_65535_columns", 1)
			}
		}
	}
	open := grate.Open
	how := "grate.Open"
	if r.IntN(2) == 0 || isCSV && nc == 1 {
		how = "the reader"
		open = simple.OpenTSV
		if isCSV {
			open = simple.OpenCSV
		}
	} else {
		c.Count("via_open", 1)
	}
	o := fieldOpts{csv: isCSV, tabs: isCSV && how != "grate.Open", breaks: isCSV && r.IntN(2) == 0}
	eol := wb.Pick(r, 0, 0, 1, 2) // LF, CRLF, mixed
	allQuoted := r.IntN(5) == 0
	var b strings.Builder
	var rows [][]string
	classes := map[int]int{}
	// rows of different lengths
	ragged, mustOpen := huge < 0 && r.IntN(8) == 0, true
	widths := make([]int, nr)
	for i := range widths {
		widths[i] = nc
	}
	if ragged {
		c.Count("ragged", 1)
		other, most := wb.Pick(r, 2, 6, 12, 12), 0
		if nr > 200 && nc > 1 && r.IntN(2) == 0 { // mostly of one length
			other = 8
		}
		count := map[int]int{}
		narrow := r.IntN(2) == 0
		for i := range widths {
			if r.IntN(other) == 0 {
				widths[i] = 1 + r.IntN(nc+3)
				if narrow {
					widths[i] = 1 + r.IntN(2)
				}
			}
			if i == 0 && how == "grate.Open" {
				widths[i] += 1
			}
			count[widths[i]]++
		}
		common := 0
		for w, n := range count {
			if w > 1 && n > most {
				most = n
			}
			if n > 25 {
				common++
			}
		}
		// NB files of very different rows may be rejected
		mustOpen = common == 0 || most > 10 && most*100 > nr*81
		if !mustOpen { // as it may open as another format then
			how, open = "the reader", simple.OpenTSV
			if isCSV {
				open = simple.OpenCSV
			}
		}
		if common > 1 && mustOpen {
			c.Count("ragged_large", 1)
		}
	}
	budget := 3 << 20
	for i := 0; i < nr; i++ {
		nc := widths[i]
		row := make([]string, nc)
		blank := r.IntN(12) == 0 && !(isCSV && nc == 1)
		for k := range row {
			if !blank {
				var kind int
				row[k], kind = randField(r, o)
				classes[kind]++
			}
		}
		if blank {
			c.Count("blank_rows", 1)
		}
		if huge == 2 && i == 0 {
			n := 1<<20 + r.IntN(12<<20)
			row[r.IntN(nc)] = strings.Repeat(wb.Pick(r, "x", "y z", "é"), n)[:n-n%12]
			c.Count("over_1MB", 1)
		}
		if nr < 60 && huge < 0 && r.IntN(40) == 0 {
			n := wb.Pick(r, 65534, 65535, 65536, 65537, 4095, 4096, 4097, 100000, 300000) + r.IntN(3) - 1
			if n < budget {
				budget -= n
				k := r.IntN(nc)
				row[k] = strings.Repeat(wb.Pick(r, "x", "y z", "q,"), n)[:n]
				if !isCSV {
					row[k] = strings.ReplaceAll(row[k], ",", "_")
				}
				c.Count("long_lines", 1)
			}
		}
		if isCSV && nc == 1 && row[0] == "" {
			row[0] = "e"
		}
		if !isCSV && nc == 1 && how == "grate.Open" {
			row[0] = strings.ReplaceAll(row[0], ",", ".")
		}
		if i == 0 && r.IntN(20) == 0 { // like a byte order mark in part
			row[0] = wb.Pick(r, "\ufef2", "\ufebf", "\ufec0", "\ufefe", "\ufb00", "\uffff", "\xef", "\xef\xbb", "\xff\xfe") + row[0]
		}
		rows = append(rows, row)
	}
	for i, row := range rows {
		for k, s := range row {
			if k > 0 {
				b.WriteByte(map[bool]byte{true: ',', false: '\t'}[isCSV])
			}
			if isCSV {
				s = csvField(r, s, c, allQuoted)
			}
			b.WriteString(s)
		}
		if i == nr-1 && r.IntN(3) == 0 {
			if len(row) > 1 || row[0] != "" {
				c.Count("unterminated", 1)
				break
			}
		}
		if eol == 1 || eol == 2 && r.IntN(2) == 0 {
			b.WriteString("\r\n")
			c.Count("crlf", 1)
		} else {
			b.WriteString("\n")
		}
	}
	data := []byte(b.String())
	if r.IntN(12) == 0 {
		data = append([]byte("\xEF\xBB\xBF"), data...)
		c.Count("bom", 1)
	}
	ext := wb.Pick(r, ".csv", ".tsv", ".txt", "", ".xls", ".xlsx")
	c.Artifact("table.txt", data)
	c.Key(isCSV, how, nc, nr, eol, fmt.Sprint(classes))
	c.Note("csv=%v %s %d columns %d rows %d bytes", isCSV, how, nc, nr, len(data))
	if isCSV {
		c.Count("csv_files", 1)
	} else {
		c.Count("tsv_files", 1)
	}
	if len(data) >= 2 && data[0] == 'P' && data[1] == 'K' {
		return
	}
	src, err := open(c.File(ext, data))
	if err != nil && !mustOpen && (errors.Is(err, grate.ErrNotInFormat) || errors.Is(err, grate.ErrUnknownFormat)) {
		c.Count("rejected", 1)
		return
	}
	if err != nil {
		c.Fatal("open", "%s of a rectangular %s file with %d rows of %d fields: %v", how, map[bool]string{true: "CSV", false: "TSV"}[isCSV], nr, nc, err)
	}
	defer src.Close()
	l, err := src.List()
	if err != nil || len(l) != 1 {
		c.Fatal("list", "List: %q %v", l, err)
	}
	col := mustGet(c, src, l[0])
	i := 0
	for col.Next() {
		if i >= nr {
			c.Fatal("rows", "%d rows written, but there is another: %q", nr, col.Strings())
		}
		got := col.Strings()
		c.Count("rows", 1)
		c.Count("fields", len(got))
		nc := nc
		if ragged {
			nc = len(rows[i])
		}
		if len(got) != nc {
			c.Fatal("columns", "row %d has %d fields, %d written: %s", i+1, len(got), nc, q(fmt.Sprint(got)))
		}
		t := col.Types()
		f := col.Formats()
		if len(t) != nc || len(f) != nc {
			c.Fatal("columns", "row %d has %d types and %d formats for %d fields", i+1, len(t), len(f), nc)
		}
		for k := range got {
			if got[k] != rows[i][k] {
				c.Fatal("field", "%s row %d field %d: %s written, %s read", how, i+1, k+1, q(rows[i][k]), q(got[k]))
			}
			want := "string"
			if got[k] == "" {
				want = "blank"
			}
			if t[k] != want {
				c.Fatal("type", "row %d field %d %s has type %s", i+1, k+1, q(got[k]), t[k])
			}
		}
		all := make([]interface{}, nc)
		for k := range all {
			all[k] = new(string)
		}
		if err := col.Scan(all...); err != nil {
			c.Fatal("scan", "Scan of row %d into strings: %v", i+1, err)
		}
		for k := range all {
			if *all[k].(*string) != rows[i][k] {
				c.Fatal("scan", "Scan of row %d field %d gives %s, %s written", i+1, k+1, q(*all[k].(*string)), q(rows[i][k]))
			}
		}
		if r.IntN(4) == 0 {
			scanOnce(c, col, true, fmt.Sprintf("row %d", i+1), got, t, nil)
		}
		i++
	}
	if i != nr {
		c.Fatal("rows", "%d rows written, %d read", nr, i)
	}
	if col.Next() {
		c.Fatal("rows", "Next returns true after the last row")
	}
	if err := col.Err(); err != nil {
		c.Fatal("err", "Err after the last row: %v", err)
	}
	if c.Index == 0 {
		crlfInQuotes(c)
	}
}

// crlfInQuotes watches line breaks of two characters inside of quoted fields.
func crlfInQuotes(c *mon.Ctx) {
	src, err := simple.OpenCSV(c.File(".csv", []byte("a,\"b\r\nc\"\r\nd,e\r\n")))
	if err != nil {
		c.Fatal("open", "a quoted line break: %v", err)
	}
	col := mustGet(c, src, "x")
	var rows [][]string
	for col.Next() && len(rows) < 5 {
		rows = append(rows, col.Strings())
	}
	switch fmt.Sprintf("%q", rows) {
	case `[["a" "b\r\nc"] ["d" "e"]]`:
	case `[["a" "b\nc"] ["d" "e"]]`:
		c.Bad("crlf-in-quotes", "the line break CR LF inside of a quoted CSV field is read as LF")
	default:
		c.Bad("field", "a quoted CR LF: rows are %q", rows)
	}
}
