package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C15", Quick: 40000, Thorough: 1500000,
		Rule:      "each case opens, through grate.Open and under a random name, one of: a valid XLS, XLSX, TSV or CSV file (the reader that opened it is identified and its content compared, opened again while and after the first is in use), a binary in none of the formats (other magics, other compound files, other zips and Office packages, random bytes, text with commas whose quotes are not those of CSV), a missing or unreadable file (system errors of every kind that root can meet, injected read errors and descriptor exhaustion), or a damaged file of a recognised format; every 25th case starts a process which registers recorders (random priorities, names and outcomes, wrapped and plain, before and between Opens) and checks the recorded call trace; distinct = distinct (kind, variant, name)",
		Assume:    []string{"unknown binaries contain a NUL byte, texts that are refused have commas, no tabs and quotes inside of or after a field", "text files are rectangular, CSV files have commas and no tabs", "the order of openers with equal priority is not specified"},
		MinEvents: map[string]int{"late_nul": 50, "bad_quotes": 300, "valid_xls": 900, "valid_xlsx": 900, "valid_tsv": 900, "valid_csv": 900, "unknown": 1200, "system_errors": 800, "damaged": 1500, "reopened": 3000, "registry_processes": 300, "registry_opens": 6000, "registry_calls": 20000},
		Case:      caseC15,
	})
	mon.Subs["registry"] = subRegistry
	mon.Subs["nofiles"] = subNoFiles
}

var c15names = []string{"book", "a.xls", "b.xlsx", "c.csv", "d.tsv", "e.txt", "f.XLS", "g.doc", ".hidden", "h.zip", "i.tar.gz", "käse.csv", "sp ace.tsv", "日本.xls", "x.xls.csv", "y.csv.xlsx", "-", "z.", "%s.xlsx", "n\nl.csv", "t\tt.tsv", "~$lock.xlsx"}

// place writes the bytes under a random name.
func place(c *mon.Ctx, b []byte) string {
	d := filepath.Join(c.Dir, strconv.Itoa(c.Rand.IntN(1<<30)))
	switch c.Rand.IntN(6) {
	case 0:
		d = filepath.Join(d, "in.xls")
	case 1:
		d = filepath.Join(d, "dir.csv", "x")
	}
	c.Must(os.MkdirAll(d, 0o755))
	p := filepath.Join(d, c15names[c.Rand.IntN(len(c15names))])
	c.Must(os.WriteFile(p, b, 0o644))
	if c.Rand.IntN(6) == 0 {
		l := filepath.Join(d, "link"+wb.Pick(c.Rand, "", ".csv", ".xls"))
		c.Must(os.Symlink(p, l))
		return l
	}
	return p
}

// dump is everything a source tells.
func dump(c *mon.Ctx, src grate.Source) string {
	var b strings.Builder
	names, err := src.List()
	fmt.Fprintf(&b, "%T %v\n", src, err)
	for _, n := range names {
		col, err := src.Get(n)
		if err != nil {
			fmt.Fprintf(&b, "%q: %v\n", n, err)
			continue
		}
		rows, _ := readAll(col)
		fmt.Fprintf(&b, "%q %v %v\n", n, col.IsEmpty(), col.Err())
		for _, r := range rows {
			fmt.Fprintf(&b, "%d %v %q %q %q %v %v\n", r.N, r.Blank, r.S, r.T, r.F, r.V, r.SErr)
		}
	}
	return b.String()
}

func caseC15(c *mon.Ctx) {
	r := c.Rand
	if c.Index%25 == 7 {
		registry(c)
		return
	}
	grate.Debug = r.IntN(4) == 0
	defer func() { grate.Debug = false }()
	switch k := r.IntN(11); k {
	case 0, 1, 2, 3, 4, 5:
		valid(c, k%4)
	case 6, 7:
		unknown(c)
	case 8:
		system(c)
	default:
		damaged(c)
	}
}

func smallBook(r *rand.Rand, isXLS bool) *wb.Workbook {
	return genBook(r, GenOpts{XLS: isXLS, MaxSheets: 3, MaxCells: 12, Formats: true, Hidden: r.IntN(3) == 0})
}

func valid(c *mon.Ctx, kind int) {
	r := c.Rand
	var b []byte
	var w *wb.Workbook
	var rows [][]string
	what := [...]string{"XLS", "XLSX", "TSV", "CSV"}[kind]
	switch kind {
	case 0:
		w = smallBook(r, true)
		o := randXLSOpts(r)
		if r.IntN(5) == 0 {
			o.Encrypt, o.Salt = true, randBytes(r, 16)
		}
		b, _ = wb.BuildXLS(w, o, randCFBOpts(r))
		c.Count("valid_xls", 1)
	case 1:
		w = smallBook(r, false)
		b, _, _ = wb.BuildXLSX(w, wb.RandXLSXOpts(r))
		c.Count("valid_xlsx", 1)
	default:
		sep := "\t"
		if kind == 3 {
			sep = ","
			c.Count("valid_csv", 1)
		} else {
			c.Count("valid_tsv", 1)
		}
		nc, nr := 2+r.IntN(6), 1+r.IntN(40)
		if r.IntN(5) == 0 {
			nr = 1 + r.IntN(3)
		}
		if kind == 2 && r.IntN(6) == 0 {
			nc = 1
		}
		eol := wb.Pick(r, "\n", "\r\n")
		var sb strings.Builder
		for i := 0; i < nr; i++ {
			row := make([]string, nc)
			for k := range row {
				row[k], _ = randField(r, fieldOpts{csv: kind == 3})
				if nc == 1 {
					row[k] = strings.ReplaceAll(row[k], ",", ".")
				}
				if i == 0 && k == 0 && (strings.HasPrefix(row[k], "PK") || row[k] == "") {
					row[k] = "x"
				}
				f := strings.ReplaceAll(row[k], "\t", " ")
				row[k] = f
				if k > 0 {
					sb.WriteString(sep)
				}
				if kind == 3 {
					f = csvField(r, f, c, false)
				}
				sb.WriteString(f)
			}
			if i < nr-1 || row[nc-1] == "" || r.IntN(2) == 0 {
				sb.WriteString(eol)
			}
			rows = append(rows, row)
		}
		b = []byte(sb.String())
	}
	p := place(c, b)
	c.Artifact("file", b)
	c.Key(kind, filepath.Ext(p), len(b))
	c.Note("valid %s %q of %d bytes", what, filepath.Base(p), len(b))
	if r.IntN(4) == 0 { // something that fails first
		if src, err := grate.Open(filepath.Join(c.Dir, "missing.xls")); err == nil || src != nil {
			c.Fatal("missing", "a missing file opens: %v %v", src, err)
		}
	}
	src, err := grate.Open(p)
	if err != nil {
		c.Fatal("open", "a valid %s file of %d bytes named %q does not open: %v", what, len(b), filepath.Base(p), err)
	}
	defer src.Close()
	got := "text"
	switch src.(type) {
	case *xls.WorkBook:
		got = "XLS"
	case *xlsx.Document:
		got = "XLSX"
	}
	if got != what && (kind < 2 || got != "text") {
		c.Fatal("reader", "a valid %s file was opened by %T", what, src)
	}
	if w != nil {
		for i := range w.Sheets {
			rr, _ := readAll(mustGet(c, src, w.Sheets[i].Name))
			compareSheet(c, q(w.Sheets[i].Name), rr, expSheet(w, &w.Sheets[i]))
		}
	} else {
		l, err := src.List()
		if err != nil || len(l) != 1 {
			c.Fatal("list", "List: %q %v", l, err)
		}
		col := mustGet(c, src, l[0])
		i := 0
		for col.Next() {
			if s := col.Strings(); i >= len(rows) || fmt.Sprintf("%q", s) != fmt.Sprintf("%q", rows[i]) {
				c.Fatal("reader", "row %d of a %s file with %d rows is %q, want %q", i+1, what, len(rows), s, rows[min(i, len(rows)-1)])
			}
			i++
		}
		if i != len(rows) {
			c.Fatal("reader", "%d rows of a %s file with %d rows", i, what, len(rows))
		}
	}
	// again, now and after closing, under the same and under another name
	d1 := dump(c, src)
	p2 := place(c, b)
	for k, p := range []string{p, p2, p} {
		if k == 2 {
			src.Close()
		}
		s2, err := grate.Open(p)
		if err != nil {
			c.Fatal("repeat", "a %s file opens, but not again (%d): %v", what, k, err)
		}
		if d2 := dump(c, s2); d2 != d1 && (w != nil || p == p2 == false) {
			c.Fatal("repeat", "opening a %s file again (%d) gives something else:\n%s\n%s", what, k, d1, d2)
		}
		s2.Close()
		c.Count("reopened", 1)
	}
}

var magics = []string{
	"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR", "GIF89a\x01\x00\x01\x00", "\xff\xd8\xff\xe0\x00\x10JFIF\x00", "%PDF-1.4\n%\xe2\xe3\xcf\xd3\n\x00", "\x7fELF\x02\x01\x01\x00",
	"\x1f\x8b\x08\x00\x00\x00\x00\x00", "BZh91AY&SY\x00", "7z\xbc\xaf\x27\x1c\x00", "Rar!\x1a\x07\x00", "MZ\x90\x00\x03\x00", "SQLite format 3\x00", "RIFF\x00\x00\x00\x00WAVE",
	"\x00", "\x00\x00", "a\tb\x00\n", "a,b\n1,\x00\n", "\"a\x00", "x\n\x00", "\x09\x08\x10\x00\x00\x06\x05\x00", "\x09\x08\x08\x00\x00\x05\x10\x00", "PK\x05\x06\x00\x00\x00",
	"\xd0\xcf\x11\xe0\xa1\xb1\x1a", "\x0e\x11\xfc\x0d\x00", "\xfe\xff\x00a\x00,\x00b", "a\x00,\x00b\x00\n\x00", "<?xml version=\"1.0\"?>\n\x00", "{\\rtf1\x00}", "\xca\xfe\xba\xbe\x00",
}

func unknown(c *mon.Ctx) {
	r := c.Rand
	var b []byte
	what := ""
	switch k := r.IntN(9); k {
	case 0, 1:
		m := magics[r.IntN(len(magics))]
		b = append([]byte(m), randBytes(r, wb.Pick(r, 0, r.IntN(20), r.IntN(600), r.IntN(5000)))...)
		what = "magic " + q(m)
	case 2:
		b = randBytes(r, 1+r.IntN(wb.Pick(r, 10, 600, 3000, 20000)))
		b[r.IntN(len(b))] = 0
		if b[0] == 'P' || b[0] == 0xD0 {
			b[0] = 'Q'
		}
		what = "random bytes"
	case 3: // text with one NUL, anywhere
		var sb strings.Builder
		sep := wb.Pick(r, "\t", ",", ";")
		for n := 1 + r.IntN(wb.Pick(r, 3, 60, 60, 60, 3000)); n > 0; n-- {
			for k := 0; k < 3; k++ {
				f, _ := randField(r, fieldOpts{})
				sb.WriteString(strings.ReplaceAll(strings.ReplaceAll(f, "\"", ""), "P", "p") + sep)
			}
			sb.WriteByte('\n')
		}
		b = []byte(sb.String())
		k := r.IntN(len(b))
		if r.IntN(3) == 0 { // near the end
			k = len(b) - 1 - r.IntN(min(len(b), 10))
		}
		b[k] = 0
		what = "text with NUL"
		if bytes.Count(b[:k], []byte("\n")) > 1000 {
			c.Count("late_nul", 1)
		}
	case 4, 5: // another compound file
		var ents []wb.CFBEntry
		names := []string{"WordDocument", "1Table", "PowerPoint Document", "__properties_version1.0", "Contents", "workbook2", "Workbook ", "Wor", "WorkbookX", "EncryptedPackage"}
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			ents = append(ents, wb.CFBEntry{Name: names[(i*3+r.IntN(3))%len(names)], Data: randBytes(r, r.IntN(6000))})
		}
		if r.IntN(3) == 0 {
			ents = append(ents, wb.CFBEntry{Name: "Workbook", Storage: true})
			what = "with a Workbook storage"
		} else if r.IntN(3) == 0 {
			ents = nil
		}
		b, _ = wb.WriteCFB(ents, randCFBOpts(r))
		what = "compound file " + what
	case 6: // another zip
		var parts []wb.Part
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			parts = append(parts, wb.Part{Name: wb.Pick(r, "mimetype", "content.xml", "META-INF/MANIFEST.MF", "classes.dex", "a.txt", "xl/workbook.xml", "_rels/x.rels", "word/document.xml") + strconv.Itoa(i), Data: randBytes(r, r.IntN(3000))})
		}
		b = wb.ZipParts(parts, wb.XLSXOpts{Rand: r, Store: r.IntN(2) == 0, DirEntries: r.IntN(2) == 0})
		what = "zip"
	case 7: // a document of another application
		root, path := "document", "word/document.xml"
		if r.IntN(2) == 0 {
			root, path = "presentation", "ppt/presentation.xml"
		}
		b = wb.ZipParts([]wb.Part{
			{Name: "[Content_Types].xml", Data: []byte(`<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/></Types>`)},
			{Name: "_rels/.rels", Data: []byte(`<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="` + path + `"/></Relationships>`)},
			{Name: path, Data: []byte(`<?xml version="1.0"?><x:` + root + ` xmlns:x="urn:x"><x:body/></x:` + root + `>`)},
			{Name: filepath.Dir(path) + "/_rels/" + filepath.Base(path) + ".rels", Data: []byte(`<?xml version="1.0"?><Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"/>`)},
		}, wb.XLSXOpts{Rand: r, Store: r.IntN(2) == 0, Shuffle: true})
		what = "office " + root
	case 8: // text with the quotes of no CSV file
		nr := 1 + r.IntN(wb.Pick(r, 3, 60, 60, 3000))
		bad := r.IntN(nr)
		if r.IntN(3) == 0 {
			bad = nr - 1
		}
		var sb strings.Builder
		for i := 0; i < nr; i++ {
			fs := make([]string, 2+r.IntN(3))
			for k := range fs {
				f, _ := randField(r, fieldOpts{})
				fs[k] = strings.NewReplacer("\"", "", ",", "", "P", "p").Replace(f)
			}
			if i == bad {
				k := r.IntN(len(fs))
				switch r.IntN(3) {
				case 0:
					fs[k] = "x" + fs[k] + wb.Pick(r, "\"", "\"y", "\"\"", "\"y\"")
				case 1:
					fs[k] = "\"" + fs[k] + "\"" + wb.Pick(r, "y", " ", "y\"")
				case 2:
					fs[k] = "\"" + fs[k]
				}
			}
			sb.WriteString(strings.Join(fs, ",") + wb.Pick(r, "\n", "\r\n"))
		}
		b = []byte(sb.String())
		what = "text with bad quotes"
		c.Count("bad_quotes", 1)
	}
	if bytes.IndexByte(b, 0) < 0 && what != "text with bad quotes" {
		b = append(b, 0)
	}
	p := place(c, b)
	c.Artifact("file", b)
	c.Count("unknown", 1)
	c.Key("unknown", what, len(b))
	c.Note("unknown binary (%s), %d bytes", what, len(b))
	src, err := grate.Open(p)
	if err == nil {
		c.Fatal("unknown", "a binary (%s, %d bytes, %q) in none of the formats opens as %T", what, len(b), filepath.Base(p), src)
	}
	if !errors.Is(err, grate.ErrUnknownFormat) {
		c.Fatal("unknown", "a binary (%s, %d bytes) in none of the formats is refused with %v", what, len(b), err)
	}
}

func system(c *mon.Ctx) {
	r := c.Rand
	ext := wb.Pick(r, "", ".xls", ".xlsx", ".csv", ".tsv", ".txt")
	var p string
	var want error
	what := ""
	switch r.IntN(9) {
	case 0:
		p, want, what = filepath.Join(c.Dir, "missing"+ext), fs.ErrNotExist, "missing"
	case 1:
		p, want, what = filepath.Join(c.Dir, "no", "such", "dir"+ext), fs.ErrNotExist, "missing directory"
	case 2:
		f := c.File(".csv", []byte("a,b\n"))
		p, want, what = filepath.Join(f, "x"+ext), syscall.ENOTDIR, "file as directory"
	case 3:
		p, want, what = filepath.Join(c.Dir, "d"+ext), syscall.EISDIR, "directory"
		c.Must(os.Mkdir(p, 0o755))
	case 4:
		p, want, what = filepath.Join(c.Dir, strings.Repeat("n", 256)+ext), syscall.ENAMETOOLONG, "long name"
	case 5:
		p, want, what = filepath.Join(c.Dir, "l"+ext), syscall.ELOOP, "symlink loop"
		c.Must(os.Symlink(p, p))
	case 6:
		p, want, what = filepath.Join(c.Dir, "dangling"+ext), fs.ErrNotExist, "dangling link"
		c.Must(os.Symlink(filepath.Join(c.Dir, "nothing"), p))
	case 7:
		p, want, what = "/proc/self/mem", syscall.EIO, "unreadable"
		if r.IntN(2) == 0 {
			l := filepath.Join(c.Dir, "m"+ext)
			c.Must(os.Symlink(p, l))
			p = l
		}
	case 8:
		if r.IntN(4) > 0 {
			p, want, what = "", fs.ErrNotExist, "empty name"
			break
		}
		f := c.File(wb.Pick(r, ".csv", ".xls"), []byte("a,b\n"))
		out, _, err := mon.RunSub(time.Minute, "nofiles", f)
		c.Must(err)
		if out != "ok\n" {
			c.Fatal("system", "without free file descriptors: %s", out)
		}
		c.Count("system_errors", 1)
		c.Key("nofiles")
		return
	}
	c.Count("system_errors", 1)
	c.Key("system", what, ext)
	c.Note("%s%s", what, ext)
	src, err := grate.Open(p)
	if err == nil {
		c.Fatal("system", "%s %q opens as %T", what, p, src)
	}
	if !errors.Is(err, want) {
		c.Fatal("system", "%s %q: error is %v, want one for %v", what, p, err, want)
	}
	if errors.Is(err, grate.ErrUnknownFormat) || errors.Is(err, grate.ErrNotInFormat) {
		c.Fatal("system", "%s %q: error %v is one about the format", what, p, err)
	}
}

func damaged(c *mon.Ctx) {
	r := c.Rand
	var b []byte
	what := ""
	sure := true
	switch k := r.IntN(9); k {
	case 0: // XLS cut off
		b, _ = wb.BuildXLS(smallBook(r, true), randXLSOpts(r), randCFBOpts(r))
		n := 8 + r.IntN(len(b)-8)
		if r.IntN(3) == 0 {
			n = 8 + r.IntN(600)
		}
		b = b[:n]
		what, sure = "XLS cut off", n < 512
	case 1: // XLSX cut off
		b, _, _ = wb.BuildXLSX(smallBook(r, false), wb.RandXLSXOpts(r))
		n := 4 + r.IntN(len(b)-4)
		b = b[:n]
		what = "XLSX cut off"
	case 2: // stream without a workbook
		s := randBytes(r, r.IntN(9000))
		if len(s) > 1 && s[0] == 9 {
			s[0] = 1
		}
		b, _ = wb.WriteCFB([]wb.CFBEntry{{Name: "Workbook", Data: s}}, randCFBOpts(r))
		what = "XLS with a random stream"
	case 3:
		o := randXLSOpts(r)
		o.Encrypt, o.Password, o.Salt = true, "another", randBytes(r, 16)
		b, _ = wb.BuildXLS(smallBook(r, true), o, randCFBOpts(r))
		what = "XLS with a password"
	case 4: // damaged header or allocation tables
		b, _ = wb.BuildXLS(smallBook(r, true), randXLSOpts(r), randCFBOpts(r))
		switch r.IntN(6) {
		case 0:
			binary.LittleEndian.PutUint16(b[0x1A:], wb.Pick[uint16](r, 0, 1, 2, 5, 0xFFFF))
			what = "XLS major version"
		case 1:
			binary.LittleEndian.PutUint16(b[0x1E:], wb.Pick[uint16](r, 0, 1, 8, 10, 13, 0xFFFF))
			what = "XLS sector shift"
		case 2:
			binary.LittleEndian.PutUint16(b[0x20:], wb.Pick[uint16](r, 0, 5, 7, 64))
			what = "XLS mini sector shift"
		case 3:
			binary.LittleEndian.PutUint32(b[0x30:], uint32(len(b)))
			what = "XLS directory start"
		case 4:
			binary.LittleEndian.PutUint32(b[0x4C:], uint32(len(b)))
			what = "XLS FAT location"
		case 5:
			binary.LittleEndian.PutUint32(b[0x38:], 12345)
			what = "XLS cutoff"
		}
	default: // damaged package
		w := smallBook(r, false)
		o := wb.RandXLSXOpts(r)
		o.CaseParts, o.UTF16 = false, 0 // the damage below looks for names and tags
		parts, _ := wb.XLSXParts(w, o)
		book := "xl/workbook.xml"
		if o.BookPath != "" {
			book = o.BookPath
		}
		rels := filepath.Join(filepath.Dir(book), "_rels", filepath.Base(book)+".rels")
		target := wb.Pick(r, book, rels, "_rels/.rels")
		found := false
		for i := range parts {
			if parts[i].Name != target {
				continue
			}
			found = true
			d := parts[i].Data
			switch r.IntN(4) {
			case 0:
				if target == "_rels/.rels" {
					parts[i].Data = []byte("<Relationships")
				} else {
					parts = append(parts[:i:i], parts[i+1:]...)
				}
				what = "XLSX without "
			case 1:
				parts[i].Data = d[:1+r.IntN(len(d)/2)]
				what = "XLSX with half of "
			case 2:
				parts[i].Data = append(append([]byte{}, d[:len(d)/2]...), []byte("</nonsense><<&")...)
				what = "XLSX with garbage in "
			case 3:
				parts[i].Data = bytes.Replace(d, []byte("</"), []byte("</z"), 1)
				what, sure = "XLSX with unbalanced ", false
			}
			break
		}
		if !found {
			c.Must(fmt.Errorf("no part %s", target))
		}
		what += map[bool]string{true: "its relationships", false: "a part"}[target != book]
		b = wb.ZipParts(parts, o)
		if r.IntN(4) == 0 { // compressed data damaged
			i := bytes.Index(b, []byte(target))
			if i > 0 && !o.Store {
				for k := 0; k < 8; k++ {
					b[i+len(target)+10+k] ^= 0xA5
				}
			}
		}
	}
	p := place(c, b)
	c.Artifact("file", b)
	c.Count("damaged", 1)
	c.Key("damaged", what, len(b))
	c.Note("%s, %d bytes", what, len(b))
	src, err := grate.Open(p)
	if err == nil {
		defer src.Close()
		if sure {
			c.Fatal("damaged", "%s (%d bytes) opens as %T", what, len(b), src)
		}
		return
	}
	if errors.Is(err, grate.ErrNotInFormat) || errors.Is(err, grate.ErrUnknownFormat) {
		c.Fatal("damaged", "%s (%d bytes): error %v is one about the format", what, len(b), err)
	}
	if err.Error() == "" {
		c.Fatal("damaged", "%s: the error says nothing", what)
	}
	// the same again
	_, err2 := grate.Open(p)
	if err2 == nil || err2.Error() != err.Error() {
		c.Fatal("repeat", "%s: fails with %v and then with %v", what, err, err2)
	}
}

func subNoFiles(args []string) int {
	log.SetOutput(io.Discard)
	if src, err := grate.Open(args[0]); err == nil {
		src.Close()
	}
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	lim.Cur = 16
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	for {
		if _, err := os.Open("/dev/null"); err != nil {
			break
		}
	}
	_, err := grate.Open(args[0])
	switch {
	case err == nil:
		fmt.Println("the file opens")
	case errors.Is(err, grate.ErrUnknownFormat) || errors.Is(err, grate.ErrNotInFormat) || !errors.Is(err, syscall.EMFILE):
		fmt.Println("the error is", err)
	default:
		fmt.Println("ok")
	}
	return 0
}

// ---- the table of openers

type fakeSource struct{ id int }

func (*fakeSource) List() ([]string, error)              { return nil, nil }
func (*fakeSource) Get(string) (grate.Collection, error) { return nil, nil }
func (*fakeSource) Close() error                         { return nil }

type regReport struct {
	Opens, Calls, Openers int
	Bad                   []string
	Shape                 string
}

func registry(c *mon.Ctx) {
	out, es, err := mon.RunSub(2*time.Minute, "registry", strconv.FormatUint(c.Rand.Uint64(), 10), c.Dir)
	var rep regReport
	if err == nil {
		err = json.Unmarshal([]byte(out), &rep)
	}
	if err != nil {
		if strings.Contains(es, "panic:") || strings.Contains(es, "fatal error:") {
			c.Fatal("registry-crash", "registering openers: %s", es)
		}
		c.Must(fmt.Errorf("registry process: %v %s", err, es))
	}
	c.Count("registry_processes", 1)
	c.Count("registry_opens", rep.Opens)
	c.Count("registry_calls", rep.Calls)
	c.Key("registry", rep.Shape)
	c.Note("registry with %d openers, %d opens, %d calls", rep.Openers, rep.Opens, rep.Calls)
	for _, b := range rep.Bad {
		c.Bad("registry", "%s", b)
	}
}

type regOpener struct {
	id, pri int
	src     *fakeSource
	err     error
}

func subRegistry(args []string) int {
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	r := rand.New(rand.NewPCG(seed, 15))
	dir := args[1]
	var rep regReport
	files := map[string]int{} // path -> priority of the built-in opener which decides, -1: none
	put := func(name string, b []byte, pri int) {
		p := filepath.Join(dir, name)
		os.WriteFile(p, b, 0o644)
		files[p] = pri
	}
	xb, _ := wb.BuildXLS(smallBook(r, true), randXLSOpts(r), randCFBOpts(r))
	xx, _, _ := wb.BuildXLSX(smallBook(r, false), wb.RandXLSXOpts(r))
	put("v.csv", xb, 1)
	put("w.xls", xx, 5)
	put("t.xls", []byte("a\tb\nc\td\n"), 10)
	put("c.tsv", []byte("a,b\nc,d\n"), 15)
	put("bin", []byte("\x00\x01\x02"), -1)
	put("bad.xls", xb[:100], 1)
	files[filepath.Join(dir, "missing")] = 1
	var paths []string
	for _, n := range []string{"v.csv", "w.xls", "t.xls", "c.tsv", "bin", "bad.xls", "missing"} {
		paths = append(paths, filepath.Join(dir, n))
	}
	opens := map[string]bool{paths[0]: true, paths[1]: true, paths[2]: true, paths[3]: true}

	var openers []*regOpener
	var trace []int
	bad := func(f string, a ...interface{}) {
		if len(rep.Bad) < 3 {
			rep.Bad = append(rep.Bad, fmt.Sprintf(f, a...))
		}
	}
	register := func() {
		o := &regOpener{id: len(openers), pri: wb.Pick(r, -5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 15, 16, 20, 100, r.IntN(200)-50, 1<<31-1, -1<<31)}
		openers = append(openers, o)
		var fn grate.OpenFunc = func(name string) (grate.Source, error) {
			trace = append(trace, o.id)
			if o.src != nil {
				return o.src, nil
			}
			return nil, o.err
		}
		name := wb.Pick(r, "xls", "fake", "", fmt.Sprint("f", o.id))
		if err := grate.Register(name, o.pri, fn); err != nil {
			bad("Register(%q, %d): %v", name, o.pri, err)
		}
	}
	other := errors.New("broken file")
	outcome := func(o *regOpener) {
		o.src, o.err = nil, nil
		switch r.IntN(14) {
		case 0:
			o.src = &fakeSource{o.id}
		case 1:
			o.err = wb.Pick(r, other, io.ErrUnexpectedEOF, fs.ErrNotExist, error(&fs.PathError{Op: "open", Path: "x", Err: syscall.EIO}), fmt.Errorf("wrapped: %w", other), grate.WrapErr(other), grate.WrapErr(other, io.EOF), grate.ErrUnknownFormat, grate.ErrInvalidScanType)
		default:
			o.err = wb.Pick(r, grate.ErrNotInFormat, grate.WrapErr(other, grate.ErrNotInFormat), grate.WrapErr(grate.ErrNotInFormat), fmt.Errorf("no: %w", grate.ErrNotInFormat), grate.WrapErr(other, fmt.Errorf("no: %w", grate.ErrNotInFormat)))
		}
	}
	rounds := 15 + r.IntN(25)
	for round := 0; round < rounds && len(rep.Bad) == 0; round++ {
		for n := r.IntN(4); n > 0 && len(openers) < 60; n-- {
			register()
		}
		allNot := r.IntN(4) == 0
		for _, o := range openers {
			outcome(o)
			if allNot {
				o.src, o.err = nil, grate.ErrNotInFormat
			}
		}
		grate.Debug = r.IntN(5) == 0
		p := paths[r.IntN(len(paths))]
		builtin := files[p]
		trace = trace[:0]
		src, err := grate.Open(p)
		rep.Opens++
		rep.Calls += len(trace)
		desc := func() string {
			var s []string
			for _, o := range openers {
				s = append(s, fmt.Sprintf("#%d pri %d: %v %v", o.id, o.pri, o.src != nil, o.err))
			}
			return fmt.Sprintf("Open(%s), built-in decision at priority %d, calls %v, result %T %v; openers %s", filepath.Base(p), builtin, trace, src, err, strings.Join(s, "; "))
		}
		seen := map[int]bool{}
		last := -1 << 62
		var decided *regOpener
		for _, id := range trace {
			o := openers[id]
			if decided != nil {
				bad("opener #%d is tried after #%d has decided: %s", id, decided.id, desc())
			}
			if seen[id] {
				bad("opener #%d is tried twice: %s", id, desc())
			}
			seen[id] = true
			if o.pri < last {
				bad("opener #%d is tried out of order: %s", id, desc())
			}
			last = o.pri
			if o.src != nil || !errors.Is(o.err, grate.ErrNotInFormat) {
				decided = o
			}
		}
		// who could be called
		limit := 1 << 62
		if decided != nil {
			limit = decided.pri
		} else if builtin >= 0 {
			limit = builtin
		}
		for _, o := range openers {
			if o.pri < limit && !seen[o.id] {
				bad("opener #%d is never tried: %s", o.id, desc())
			}
		}
		switch {
		case decided != nil:
			if builtin >= 0 && builtin < decided.pri {
				bad("opener #%d is tried although a built-in one decides: %s", decided.id, desc())
			}
			if decided.src != nil && (src != grate.Source(decided.src) || err != nil) {
				bad("the source of opener #%d is not returned: %s", decided.id, desc())
			}
			if decided.src == nil && (src != nil || fmt.Sprintf("%T %v", err, err) != fmt.Sprintf("%T %v", decided.err, decided.err) || errors.Is(err, other) != errors.Is(decided.err, other)) {
				bad("the error of opener #%d is not returned: %s", decided.id, desc())
			}
		case builtin >= 0:
			if _, fake := src.(*fakeSource); fake || opens[p] != (err == nil) {
				bad("not the outcome of the built-in opener: %s", desc())
			}
			if last > builtin {
				bad("an opener is tried after the built-in one: %s", desc())
			}
			if err != nil && (errors.Is(err, grate.ErrNotInFormat) || errors.Is(err, grate.ErrUnknownFormat)) {
				bad("the built-in opener's error is lost: %s", desc())
			}
		default:
			if src != nil || !errors.Is(err, grate.ErrUnknownFormat) {
				bad("no opener knows the file, but the result is another: %s", desc())
			}
		}
		if src != nil && err == nil {
			src.Close()
		}
	}
	rep.Openers = len(openers)
	for _, o := range openers {
		rep.Shape += fmt.Sprint(o.pri, ",")
	}
	json.NewEncoder(os.Stdout).Encode(rep)
	return 0
}
