// Package fuzz has coverage-guided targets of the readers: the sanitizers of
// the runtime (bounds, nil, overflow of the stack, memory) and the watch over
// time and allocation of checks C16 and C17 decide, the coverage of the code
// under test steers.
package fuzz

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/metrics"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/checks"
	"verif/harness/wb"
)

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// scratch is the directory of this process for its files, in VGRATE_FUZZ,
// which the caller removes.
var scratch = func() string {
	d, err := os.MkdirTemp(os.Getenv("VGRATE_FUZZ"), "fuzz")
	if err != nil {
		panic(err)
	}
	return d
}()

// read opens a file and reads everything in it.
func read(t *testing.T, ext string, b []byte, open func(string) (grate.Source, error)) {
	p := filepath.Join(scratch, "f"+ext)
	if err := os.WriteFile(p, b, 0o600); err != nil {
		t.Skip(err)
	}
	t0, a0 := time.Now(), allocated()
	cells, text := 0, 0
	defer func() {
		if d := time.Since(t0); d > 20*time.Second {
			t.Fatalf("%d bytes take %v", len(b), d)
		}
		if a := allocated() - a0; a > uint64(64<<20+500*len(b)+2000*cells+100*text)+300<<20 {
			t.Fatalf("%d bytes, %d cells: %d bytes allocated", len(b), cells, a)
		}
	}()
	src, err := open(p)
	if err != nil {
		if src != nil {
			// the text readers give what they read, too
			return
		}
		return
	}
	if src == nil {
		t.Fatal("neither a source nor an error")
	}
	defer src.Close()
	names, err := src.List()
	if err != nil {
		return
	}
	if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
		if hn, err := h.ListHidden(); err == nil {
			names = append(names, hn...)
		}
	}
	for i, n := range names {
		if i > 20 {
			break
		}
		col, err := src.Get(n)
		if err != nil {
			continue
		}
		if col == nil {
			t.Fatal("neither a collection nor an error")
		}
		empty, any := col.IsEmpty(), false
		end := false
		for k := 0; ; k++ {
			if k > 2000 || cells > 1<<19 {
				break
			}
			if !col.Next() {
				end = true
				break
			}
			s, ty, f := col.Strings(), col.Types(), col.Formats()
			if len(s) != len(ty) || len(s) != len(f) {
				t.Fatalf("%d strings, %d types, %d formats", len(s), len(ty), len(f))
			}
			cells += len(s) + 1
			args := make([]interface{}, len(ty))
			for i := range ty {
				text += len(s[i])
				any = any || s[i] != "" && ty[i] != "static" // of merged cells
				switch ty[i] {
				case "integer":
					args[i] = new(int64)
				case "float":
					args[i] = new(float64)
				case "boolean":
					args[i] = new(bool)
				case "date":
					args[i] = new(time.Time)
				default:
					args[i] = new(string)
				}
			}
			if len(args) < 3000 {
				col.Scan(args...)
			}
		}
		if col.Next() && end {
			t.Fatal("Next is true after the end")
		}
		if empty && any && end {
			t.Fatal("an empty sheet has text")
		}
		col.Err()
	}
}

func seedsXLS(add func([]byte)) {
	for i := uint64(0); i < 24; i++ {
		r := rand.New(rand.NewPCG(i, 7))
		w := checks.RichBook(r, true, 6)
		recs, _ := wb.BuildXLSRecords(w, wb.XLSOpts{Rand: r, Encrypt: i == 23, Salt: make([]byte, 16)})
		s := wb.JoinRecs(recs)
		if i == 23 {
			s = wb.EncryptStream(s, "", make([]byte, 16))
		}
		add(s)
	}
}

func partOf(parts []wb.Part, suffix string) []byte {
	for _, p := range parts {
		if strings.HasSuffix(p.Name, suffix) {
			return p.Data
		}
	}
	return nil
}

func seedsXLSX(add func(book, sheet, strs, styles, rels []byte)) {
	for i := uint64(0); i < 24; i++ {
		r := rand.New(rand.NewPCG(i, 9))
		w := checks.RichBook(r, false, 6)
		parts, _ := wb.XLSXParts(w, wb.XLSXOpts{Rand: r})
		sheet := partOf(parts, "sheet1.xml")
		rels := partOf(parts, "sheet1.xml.rels")
		book := `<workbook xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><workbookPr date1904="1"/><sheets><sheet name="a" sheetId="1" r:id="rId1"/></sheets></workbook>`
		add([]byte(book), sheet, partOf(parts, "haredStrings.xml"), partOf(parts, "tyles.xml"), rels)
	}
}

func FuzzStream(f *testing.F) {
	add := func(s []byte) { f.Add(s) }
	seedsXLS(add)
	f.Fuzz(func(t *testing.T, stream []byte) {
		if len(stream) > 60000 {
			return
		}
		b, _ := wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: stream}}, wb.CFBOpts{})
		read(t, ".xls", b, func(p string) (grate.Source, error) { return xls.Open(p) })
	})
}

func FuzzCFB(f *testing.F) {
	seedsXLS(func(s []byte) {
		if len(s) > 9000 {
			return
		}
		b, _ := wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: s}}, wb.CFBOpts{})
		f.Add(b)
	})
	b, _ := wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: make([]byte, 9)}, {Name: "x", Data: make([]byte, 5000)}}, wb.CFBOpts{})
	f.Add(b)
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 60000 {
			return
		}
		read(t, ".xls", b, func(p string) (grate.Source, error) { return xls.Open(p) })
	})
}

func FuzzXLSX(f *testing.F) {
	seedsXLSX(func(book, sheet, strs, styles, rels []byte) { f.Add(book, sheet, strs, styles, rels) })
	ct := []byte(`<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/></Types>`)
	root := []byte(`<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`)
	wrels := []byte(`<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet1.xml"/><Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/sharedStrings" Target="sharedStrings.xml"/><Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles" Target="styles.xml"/></Relationships>`)
	f.Fuzz(func(t *testing.T, book, sheet, strs, styles, rels []byte) {
		if len(book)+len(sheet)+len(strs)+len(styles)+len(rels) > 40000 {
			return
		}
		b := wb.ZipParts([]wb.Part{
			{Name: "[Content_Types].xml", Data: ct}, {Name: "_rels/.rels", Data: root}, {Name: "xl/_rels/workbook.xml.rels", Data: wrels},
			{Name: "xl/workbook.xml", Data: book}, {Name: "xl/worksheets/sheet1.xml", Data: sheet}, {Name: "xl/sharedStrings.xml", Data: strs},
			{Name: "xl/styles.xml", Data: styles}, {Name: "xl/worksheets/_rels/sheet1.xml.rels", Data: rels},
		}, wb.XLSXOpts{Rand: rand.New(rand.NewPCG(1, 1)), Store: true})
		read(t, ".xlsx", b, xlsx.Open)
	})
}

func FuzzRels(f *testing.F) {
	f.Add([]byte(`<Types><Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/></Types>`),
		[]byte(`<Relationships><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="/xl/workbook.xml"/></Relationships>`),
		[]byte(`<Relationships><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/worksheet" Target="../xl/worksheets/sheet1.xml" TargetMode="Internal"/></Relationships>`))
	f.Fuzz(func(t *testing.T, ct, root, wrels []byte) {
		b := wb.ZipParts([]wb.Part{
			{Name: "[Content_Types].xml", Data: ct}, {Name: "_rels/.rels", Data: root}, {Name: "xl/_rels/workbook.xml.rels", Data: wrels},
			{Name: "xl/workbook.xml", Data: []byte(`<workbook xmlns:r="r"><sheets><sheet name="a" sheetId="1" r:id="rId1"/></sheets></workbook>`)},
			{Name: "xl/worksheets/sheet1.xml", Data: []byte(`<worksheet><sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData></worksheet>`)},
		}, wb.XLSXOpts{Rand: rand.New(rand.NewPCG(1, 1)), Store: true})
		read(t, ".xlsx", b, xlsx.Open)
	})
}

func FuzzText(f *testing.F) {
	for _, s := range []string{"a\tb\n1\t2\n", "a,b\n\"x\"\"y\",2\n", "\xEF\xBB\xBFa;b", "\"a\nb\",c\r\n", "a\x00b"} {
		f.Add([]byte(s))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		read(t, ".csv", b, simple.OpenCSV)
		read(t, ".tsv", b, simple.OpenTSV)
		read(t, ".x", b, grate.Open)
	})
}

func FuzzFormat(f *testing.F) {
	for _, s := range []string{"0.00", "#,##0_);(#,##0)", `[Red][<1]0%;"a"@;# ?/?`, "[h]:mm:ss.00", "yyyy-mm-dd AM/PM", "0.0E+0", "[$-409]d/m/yy;@", "# ??/16", "General", `\a0*x_y,,`} {
		f.Add(s, 1234.5678)
		f.Add(s, -0.001)
	}
	f.Fuzz(func(t *testing.T, code string, v float64) {
		if len(code) > 300 {
			return
		}
		a0 := allocated()
		x := &commonxl.Formatter{}
		if x.Add(170, code) != nil {
			return
		}
		for _, val := range []interface{}{v, int64(v), code, true, nil} {
			x.Apply(170, val)
		}
		s := &commonxl.Sheet{Formatter: x}
		s.Resize(1, 4)
		s.Put(0, 0, v, 170)
		s.Put(0, 1, int64(v), 170)
		s.Put(0, 2, code, 170)
		s.Put(0, 3, bytes.Count([]byte(code), []byte("0")) > 1, 170)
		for s.Next() {
			if len(s.Strings()) != 4 {
				t.Fatal("lost cells")
			}
			s.Types()
		}
		if a := allocated() - a0; a > 64<<20 {
			t.Fatalf("%d bytes allocated for %q", a, code)
		}
	})
}
