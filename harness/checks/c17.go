package checks

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"path"
	"regexp"
	"strings"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C17", Quick: 4000, Thorough: 60000, CPUSec: 40, AllocMB: 3000,
		Rule:      "each case writes a random workbook with everything in it as an XLSX package and makes malformed packages of it: parts missing, empty, cut off, exchanged, repeated, or with random byte changes; every attribute of one element kind and every text set to every hostile value; tags dropped, repeated, moved, renamed, nested without end; relationships to anything; size bombs (references, dimensions, merged ranges, indexes, format codes); damaged ZIP structures; or hostile byte sequences as CSV and TSV (through grate.Open and the readers). Opening, listing, getting and reading is watched for panics, CPU time and bytes allocated (against file size and declared area); distinct = distinct (mutation, outcome)",
		Fuzz:      []string{"FuzzXLSX", "FuzzRels", "FuzzText"},
		Assume:    []string{"up to 2 million cells per sheet are read back", "the size of a package is that of its unpacked parts"},
		MinEvents: map[string]int{"files": 100000, "open_errors": 20000, "get_errors": 10000, "opened": 50000, "rows": 200000, "text_files": 10000, "attributes": 20000},
		Case:      caseC17,
	})
}

var hostileText = []string{"", " ", "0", "-1", "1", "-0", "1e9", "1e308", "1e309", "-1e400", "NaN", "Infinity", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "0x10", "1.5", "+5", "٣", "true", "TRUE", "x", "\x01", "é",
	"A0", "A", "1", "A1", "a1", "$A$1", "A-1", "A1:", ":A1", "A1:B", "A1:A1:A1", "B2:A1", "XFD1048576", "XFE1048577", "ZZZZZZZZZZ99999999999", "AAAAAAAAAAAAAAAAAAAAAAAA1", "A99999999999999999999", "A4294967296", "A18446744073709551616", "A1:XFD1048576", "A1:ZZZZ99999999", "XFD1048576:A1", "R1C1", "Sheet1!A1", "A1 B2", "A:A", "1:1", "#REF!", "@", "[1", "A1048576", "FXSHRXX1", "CRPXNLSKVLJFHH1", "A9223372036854775807",
	"s", "n", "b", "e", "str", "inlineStr", "d", "S", "shared", "array", "../..", "/", "//", "../../../../etc/passwd", "/xl/worksheets/sheet1.xml", "xl/workbook.xml", "workbook.xml", ".", "rId1", "rId99", "http://x/y", "%41", "a\\b", "5000", "65535", "65536", "100000000", "1000000", "16384", "16385"}

var attrRe = regexp.MustCompile(`\s([A-Za-z_][\w:.-]*)\s*=\s*("[^"]*"|'[^']*')`)
var textRe = regexp.MustCompile(`>([^<>]*)</`)
var tagRe = regexp.MustCompile(`<[^>]*>`)

func quoteAttr(s string) string {
	return `"` + strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", "\x01", "&#1;").Replace(s) + `"`
}

func partsSize(parts []wb.Part) int {
	n := 0
	for _, p := range parts {
		n += len(p.Data) + 100
	}
	return n
}

func cloneParts(parts []wb.Part) []wb.Part { return append([]wb.Part{}, parts...) }

func caseC17(c *mon.Ctx) {
	r := c.Rand
	if c.Index%6 == 5 {
		hostileTextFiles(c)
		return
	}
	w := richBook(r, false, 14)
	o := wb.RandXLSXOpts(r)
	o.CaseParts = false // the damage below looks for names
	if r.IntN(4) > 0 {
		o.UTF16 = 0
	}
	parts, _ := wb.XLSXParts(w, o)
	area := bookArea(w)
	open := grate.Open
	if r.IntN(3) == 0 {
		open = func(f string) (grate.Source, error) { return xlsx.Open(f) }
	}
	zo := wb.XLSXOpts{Store: true}
	run := func(b []byte, what string, area int) usage {
		return hostile(c, ".xlsx", b, what, area, open)
	}
	zipped := func(ps []wb.Part) []byte { return wb.ZipParts(ps, zo) }
	base := zipped(parts)
	class := r.IntN(12)
	c.Note("class %d %s", class, describe(w))
	c.Count(fmt.Sprint("class_", class), 1)
	if u := run(base, "base", area); strings.HasPrefix(u.outcome, "open:") || strings.Contains(u.outcome, "get:") {
		c.Fatal("base", "the well-formed file is not read: %s", u.outcome)
	}
	// parts that are read
	var idx []int
	for i, p := range parts {
		if strings.HasSuffix(p.Name, ".rels") || strings.Contains(p.Name, "sheet") || strings.Contains(p.Name, "tyles") || strings.Contains(p.Name, "hared") || path.Base(p.Name) == "workbook.xml" || path.Base(p.Name) == path.Base(o.BookPath) {
			idx = append(idx, i)
		}
	}
	sheets := []int{}
	for _, i := range idx {
		if bytes.Contains(parts[i].Data, []byte("sheetData")) {
			sheets = append(sheets, i)
		}
	}
	pick := func() int { return idx[r.IntN(len(idx))] }
	kindOf := func(i int) string {
		n := parts[i].Name
		switch {
		case strings.HasSuffix(n, ".rels"):
			return "rels"
		case bytes.Contains(parts[i].Data, []byte("sheetData")):
			return "sheet"
		}
		return strings.TrimRight(path.Base(n), "0123456789")
	}
	switch class {
	case 0: // parts as a whole
		for i := 0; i < 40; i++ {
			m := cloneParts(parts)
			k := pick()
			what := ""
			switch r.IntN(9) {
			case 0:
				m = append(m[:k:k], m[k+1:]...)
				what = "without"
			case 1:
				m[k].Data = nil
				what = "empty"
			case 2:
				m[k].Data = m[k].Data[:r.IntN(len(m[k].Data)+1)]
				what = "half"
			case 3:
				m[k].Data = m[r.IntN(len(m))].Data
				what = "other"
			case 4:
				m = append(m, wb.Part{Name: m[k].Name, Data: m[r.IntN(len(m))].Data})
				what = "twice"
			case 5:
				m[k].Name = wb.Pick(r, strings.ToUpper(m[k].Name), "/"+m[k].Name, "./"+m[k].Name, strings.ReplaceAll(m[k].Name, "/", "\\"), m[k].Name+" ", m[k].Name+"/")
				what = "renamed"
			case 6:
				m[k].Data = randBytes(r, r.IntN(2000))
				what = "random"
			case 7:
				m[k].Data = append(append([]byte{}, m[k].Data...), m[r.IntN(len(m))].Data...)
				what = "appended"
			case 8:
				enc := wb.Pick(r, "utf-16", "iso-8859-1", "x", "UTF-8", "")
				m[k].Data = []byte(regexp.MustCompile(`encoding=["'][^"']*["']`).ReplaceAllString(string(m[k].Data), `encoding="`+enc+`"`))
				if r.IntN(2) == 0 { // really UTF-16
					var d []byte
					for _, x := range string(m[k].Data) {
						d = append(d, byte(x), byte(x>>8))
					}
					m[k].Data = append([]byte{0xFF, 0xFE}, d...)
				}
				what = "encoding"
			}
			run(zipped(m), what+" "+kindOf(k), -1)
		}
	case 1, 2: // bytes of a part
		for i := 0; i < 50; i++ {
			m := cloneParts(parts)
			k := pick()
			m[k].Data = mutateRaw(r, m[k].Data)
			run(zipped(m), "bytes of "+kindOf(k), -1)
		}
	case 3, 4, 5: // attributes
		k := pick()
		if len(sheets) > 0 && r.IntN(3) > 0 {
			k = sheets[r.IntN(len(sheets))]
		}
		all := attrRe.FindAllSubmatchIndex(parts[k].Data, -1)
		byName := map[string][][]int{}
		var names []string
		for _, a := range all {
			n := string(parts[k].Data[a[2]:a[3]])
			if byName[n] == nil {
				names = append(names, n)
			}
			byName[n] = append(byName[n], a)
		}
		if len(names) == 0 {
			break
		}
		for rounds := 0; rounds < 2; rounds++ {
			n := names[r.IntN(len(names))]
			for _, v := range hostileText {
				as := byName[n]
				a := as[r.IntN(len(as))]
				d := parts[k].Data
				var nd []byte
				switch r.IntN(12) {
				case 0: // absent
					nd = append(append(nd, d[:a[2]]...), d[a[5]:]...)
				case 1: // twice
					nd = append(append(append(nd, d[:a[5]]...), " "+n+"="+quoteAttr(v)...), d[a[5]:]...)
				default:
					nd = append(append(append(nd, d[:a[4]]...), quoteAttr(v)...), d[a[5]:]...)
				}
				m := cloneParts(parts)
				m[k].Data = nd
				c.Count("attributes", 1)
				ar := -1
				if n == "s" || n == "t" || n == "numFmtId" || n == "id" || n == "count" || n == "uniqueCount" || n == "Target" || n == "name" || n == "display" || n == "location" {
					ar = area
				}
				run(zipped(m), kindOf(k)+" @"+n, ar)
			}
		}
	case 6: // texts
		k := pick()
		if len(sheets) > 0 && r.IntN(3) > 0 {
			k = sheets[r.IntN(len(sheets))]
		}
		all := textRe.FindAllSubmatchIndex(parts[k].Data, -1)
		if len(all) == 0 {
			break
		}
		for _, v := range hostileText {
			a := all[r.IntN(len(all))]
			d := parts[k].Data
			v = strings.NewReplacer("&", "&amp;", "<", "&lt;", "\x01", "&#1;").Replace(v)
			if r.IntN(8) == 0 {
				v = wb.Pick(r, "<v/>", "<is/>", "<t>x</t>", "<f/>", "<c/>", "<row/>", "<![CDATA[x]]>", "<!-- c -->", "<?pi?>", "&#0;", "&bad;", "&", "<", "]]>", "<v>1</v><v>2</v>", "<si><t>q</t></si>")
			}
			nd := append(append(append([]byte{}, d[:a[2]]...), v...), d[a[3]:]...)
			m := cloneParts(parts)
			m[k].Data = nd
			run(zipped(m), kindOf(k)+" text", -1)
		}
	case 7: // tags
		for i := 0; i < 50; i++ {
			k := pick()
			if len(sheets) > 0 && r.IntN(2) == 0 {
				k = sheets[r.IntN(len(sheets))]
			}
			d := parts[k].Data
			all := tagRe.FindAllIndex(d, -1)
			if len(all) < 3 {
				continue
			}
			a, b := all[r.IntN(len(all))], all[r.IntN(len(all))]
			if a[0] > b[0] {
				a, b = b, a
			}
			var nd []byte
			what := ""
			switch r.IntN(7) {
			case 0:
				nd = append(append(nd, d[:a[0]]...), d[a[1]:]...)
				what = "drop"
			case 1:
				nd = append(append(nd, d[:a[1]]...), d[a[0]:]...)
				what = "repeat"
			case 2: // move
				nd = append(append(append(append(nd, d[:a[0]]...), d[a[1]:b[1]]...), d[a[0]:a[1]]...), d[b[1]:]...)
				what = "move"
			case 3: // drop a range
				nd = append(append(nd, d[:a[0]]...), d[b[0]:]...)
				what = "drop range"
			case 4:
				nd = append(append(nd, d[:b[0]]...), d[a[0]:]...)
				what = "repeat range"
			case 5: // rename
				names := []string{"c", "v", "f", "is", "t", "r", "row", "si", "sheetData", "mergeCell", "hyperlink", "dimension", "sheet", "xf", "numFmt", "cellXfs", "Relationship", "worksheet", "rPh", "x:c"}
				s := string(d[a[0]:a[1]])
				s = regexp.MustCompile(`[A-Za-z_][\w:.-]*`).ReplaceAllStringFunc(s, func() func(string) string {
					n := 0
					return func(x string) string {
						if n++; n == 1 {
							return names[r.IntN(len(names))]
						}
						return x
					}
				}())
				nd = append(append(append(nd, d[:a[0]]...), s...), d[a[1]:]...)
				what = "rename"
			case 6:
				junk := wb.Pick(r, "<c/>", "<c r=\"\"/>", "<row/>", "<row r=\"0\"/>", "<row r=\"-5\"><c/></row>", "<c t=\"s\"/>", "<c t=\"s\"><v/></c>", "<v>5</v>", "<f>x</f>", "<is><t>z</t></is>", "<mergeCell/>", "<mergeCell ref=\"\"/>", "<hyperlink/>", "<hyperlink ref=\"A1\"/>", "<hyperlink ref=\"A1\" id=\"x\"/>", "<dimension/>", "<dimension ref=\"\"/>", "<sheet/>", "<xf/>", "<numFmt/>", "<numFmt numFmtId=\"x\" formatCode=\"0\"/>", "<si/>", "<t/>", "<Relationship/>", "<!DOCTYPE x [<!ENTITY a \"aaaa\">]>", "<?xml version=\"1.0\"?>", "</c>", "</row>", "</v>", "</worksheet>", "</sheetData>", "<sheetData>", "<worksheet>", "<x/>", "<row r=\"1000000\"/>", "<row r=\"9999999999\"><c><v>1</v></c></row>")
				nd = append(append(append(nd, d[:a[1]]...), junk...), d[a[1]:]...)
				what = "insert " + junk
			}
			m := cloneParts(parts)
			m[k].Data = nd
			run(zipped(m), kindOf(k)+" "+what, -1)
		}
	case 8: // the package
		for i := 0; i < 50; i++ {
			zo.Store = r.IntN(2) == 0
			b := zipped(parts)
			what := "zip bytes"
			switch r.IntN(5) {
			case 0:
				b = b[:r.IntN(len(b))]
				what = "zip cut"
			case 1, 2:
				b = mutateRaw(r, b)
			default: // fields of the directory
				what = "zip directory"
				for n := 1 + r.IntN(3); n > 0; n-- {
					sig := wb.Pick(r, "PK\x01\x02", "PK\x01\x02", "PK\x03\x04", "PK\x05\x06")
					var at []int
					for p := 0; ; {
						j := bytes.Index(b[p:], []byte(sig))
						if j < 0 {
							break
						}
						at = append(at, p+j)
						p += j + 4
					}
					if len(at) == 0 {
						continue
					}
					off := at[r.IntN(len(at))] + 4 + 2*r.IntN(21)
					wd := wb.Pick(r, 2, 4)
					setField(b, off, wd, hostileValue(r, getField(b, off, wd), wd))
				}
			}
			run(b, what, -1)
		}
	case 9: // several changes at once
		for i := 0; i < 50; i++ {
			m := cloneParts(parts)
			for n := 2 + r.IntN(5); n > 0; n-- {
				k := pick()
				d := m[k].Data
				as := attrRe.FindAllSubmatchIndex(d, -1)
				ts := textRe.FindAllSubmatchIndex(d, -1)
				switch {
				case len(as) > 0 && r.IntN(3) > 0:
					a := as[r.IntN(len(as))]
					m[k].Data = append(append(append([]byte{}, d[:a[4]]...), quoteAttr(hostileText[r.IntN(len(hostileText))])...), d[a[5]:]...)
				case len(ts) > 0:
					a := ts[r.IntN(len(ts))]
					m[k].Data = append(append(append([]byte{}, d[:a[2]]...), quoteAttr(hostileText[r.IntN(len(hostileText))])...), d[a[3]:]...)
				default:
					m[k].Data = mutateRaw(r, d)
				}
			}
			run(zipped(m), "several", -1)
		}
	case 10:
		for i := 0; i < 4; i++ {
			w := soupBook(r)
			b, _, _ := wb.BuildXLSX(w, wb.XLSXOpts{Rand: r, Store: true})
			run(b, "format codes", bookArea(w))
			c.Count("format_codes", len(w.Fmts))
		}
	case 11:
		xlsxBombs(r, parts, sheets, area, zipped, run)
	}
}

func xlsxBombs(r *rand.Rand, parts []wb.Part, sheets []int, area int, zipped func([]wb.Part) []byte, run func([]byte, string, int) usage) {
	if len(sheets) == 0 {
		return
	}
	for i := 0; i < 6; i++ {
		m := cloneParts(parts)
		k := sheets[r.IntN(len(sheets))]
		var b strings.Builder
		head := `<?xml version="1.0"?><worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main">`
		b.WriteString(head)
		what := ""
		a := -1
		switch r.IntN(9) {
		case 0: // nested elements
			n := wb.Pick(r, 100, 10000, 100000)
			e := wb.Pick(r, "c", "row", "sheetData", "x", "is", "v")
			b.WriteString(strings.Repeat("<"+e+">", n))
			if r.IntN(2) == 0 {
				b.WriteString(strings.Repeat("</"+e+">", n))
			}
			what = "nested " + e
		case 1: // dimension, and a cell
			fmt.Fprintf(&b, `<dimension ref="%s"/><sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData></worksheet>`, wb.Pick(r, "A1:XFD1048576", "A1:A1048576", "A1:XFD1", "XFD1048576", "A1:ZZZ9999999", "B7:ZZZZZZ1", "A1:A2147483647"))
			what = "dimension"
		case 2: // far cells
			b.WriteString("<sheetData>")
			for n := wb.Pick(r, 1, 10, 500); n > 0; n-- {
				ref := wb.Pick(r, "XFD1048576", "A1048576", "XFD1", "XFE1", "A1048577", "A2147483647", "AAAAAA1", "ZZZZ99999", wb.Ref(r.IntN(1<<20), r.IntN(1<<14)))
				fmt.Fprintf(&b, `<row><c r="%s"><v>1</v></c></row>`, ref)
			}
			b.WriteString("</sheetData></worksheet>")
			what = "far cells"
		case 3: // row numbers
			b.WriteString("<sheetData>")
			for n := wb.Pick(r, 1, 10, 500); n > 0; n-- {
				fmt.Fprintf(&b, `<row r="%s"><c><v>1</v></c></row>`, wb.Pick(r, "1048576", "1048577", "2147483647", "0", "-1", "9223372036854775807", "99999999999999999999"))
			}
			b.WriteString("</sheetData></worksheet>")
			what = "row numbers"
		case 4, 5: // merged ranges
			b.WriteString(`<sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData><mergeCells>`)
			for n := wb.Pick(r, 1, 20, 2000); n > 0; n-- {
				fmt.Fprintf(&b, `<mergeCell ref="%s"/>`, wb.Pick(r, "A1:XFD1048576", "A1:A1048576", "A1:XFD1", "B2:XFC1048575", "XFD1048576:A1", "A1:AAAAAA99999999", "A1:IV65536", wb.Ref(r.IntN(1000), r.IntN(1000))+":"+wb.Ref(r.IntN(100000), r.IntN(16000))))
			}
			b.WriteString("</mergeCells></worksheet>")
			what = "merged ranges"
		case 6: // links
			b.WriteString(`<sheetData><row r="1"><c r="A1"><v>1</v></c></row></sheetData><hyperlinks>`)
			for n := wb.Pick(r, 1, 20, 2000); n > 0; n-- {
				fmt.Fprintf(&b, `<hyperlink ref="%s" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="rId%d"/>`, wb.Pick(r, "A1:XFD1048576", "XFD1048576", "A1:A1048576", "A1"), r.IntN(4))
			}
			b.WriteString("</hyperlinks></worksheet>")
			what = "links"
		case 7: // many cells at one place
			b.WriteString("<sheetData><row>")
			for n := 5000; n > 0; n-- {
				fmt.Fprintf(&b, `<c r="%s" t="%s"><v>%s</v></c>`, wb.Pick(r, "A1", "C3", "A2"), wb.Pick(r, "s", "b", "e", "n", "str", "q"), hostileText[r.IntN(20)])
			}
			b.WriteString("</row></sheetData></worksheet>")
			what = "same cell"
			a = area + 100
		case 8: // the same sheet many times
			for j := range m {
				if bytes.Contains(m[j].Data, []byte("<sheets")) || bytes.Contains(m[j].Data, []byte(":sheets")) {
					s := string(m[j].Data)
					e := regexp.MustCompile(`<[\w]*:?sheet\s[^>]*/>`).FindString(s)
					if e != "" {
						m[j].Data = []byte(strings.Replace(s, e, strings.Repeat(e, 3000), 1))
					}
				}
			}
			run(zipped(m), "many sheets", -1)
			continue
		}
		m[k].Data = []byte(b.String())
		run(zipped(m), what, a)
	}
}

var textBits = []string{",", ",", "\t", "\t", "\n", "\n", "\r", "\r\n", "\"", "\"\"", "\"a\"", "a", "1", " ", "é", "\x00", "\xff", "\xef\xbb\xbf", "\xff\xfe", ";", "'", "\\", "#", "\u2028", "PK\x03\x04", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", "\x1a", "true", "1e999", "\"\n", ",\"", "\",", "\"\r\n\""}

func hostileTextFiles(c *mon.Ctx) {
	r := c.Rand
	opens := []func(string) (grate.Source, error){grate.Open, grate.Open, simple.OpenTSV, simple.OpenCSV}
	for i := 0; i < 40; i++ {
		var b []byte
		what := ""
		switch k := r.IntN(8); k {
		case 0:
			b = randBytes(r, r.IntN(wb.Pick(r, 4, 100, 5000)))
			what = "bytes"
		case 1, 2, 3:
			for n := r.IntN(wb.Pick(r, 5, 50, 1000)); n > 0; n-- {
				b = append(b, textBits[r.IntN(len(textBits))]...)
			}
			what = "text"
		case 4:
			b = bytes.Repeat([]byte(textBits[r.IntN(len(textBits))]), 1+r.IntN(200000))
			what = "repeated"
		case 5: // a table, changed
			for i, n := 0, r.IntN(60); i < n; i++ {
				for k := 0; k < 4; k++ {
					f, _ := randField(r, fieldOpts{csv: true, breaks: true, tabs: true})
					b = append(append(b, csvField(r, f, c, false)...), wb.Pick[byte](r, ',', ',', '\t'))
				}
				b = append(b, '\n')
			}
			b = mutateRaw(r, b)
			what = "table"
		case 6: // the start of another format
			pre := wb.Pick(r, "PK\x03\x04", "PK\x05\x06", "\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1", "PK", "\xd0\xcf\x11\xe0")
			b = append([]byte(pre), randBytes(r, r.IntN(wb.Pick(r, 30, 2000)))...)
			if r.IntN(2) == 0 { // a plausible compound file header
				b = append(b, make([]byte, 600)...)
				binary.LittleEndian.PutUint16(b[0x1A:], 3)
				binary.LittleEndian.PutUint16(b[0x1C:], 0xFFFE)
				binary.LittleEndian.PutUint16(b[0x1E:], 9)
			}
			what = "prefix"
		case 7: // an arbitrary zip
			var z bytes.Buffer
			zw := zip.NewWriter(&z)
			for n := r.IntN(4); n > 0; n-- {
				f, _ := zw.Create(wb.Pick(r, "_rels/.rels", "xl/workbook.xml", "xl/_rels/workbook.xml.rels", "[Content_Types].xml", "a", "", "../x"))
				f.Write([]byte(wb.Pick(r, "", "<Relationships/>", `<Relationships><Relationship Id="1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>`, "<workbook><sheets><sheet name='a' id='b'/></sheets></workbook>", "x", "<")))
			}
			zw.Close()
			b = z.Bytes()
			what = "zip"
		}
		hostile(c, wb.Pick(r, ".csv", ".tsv", ".xls", ".xlsx", ""), b, what, len(b)+10, opens[r.IntN(len(opens))])
		c.Count("text_files", 1)
	}
}
