package wb

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math/rand/v2"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// XLSXOpts controls the XML/ZIP layout of the package.
type XLSXOpts struct {
	Rand       *rand.Rand
	Pretty     bool   // whitespace between elements
	Escapes    int    // write one of so many characters as _xHHHH_ where possible
	RelPrefix  string // namespace prefix of the relationship attributes (default "r")
	Prefix     string // namespace prefix for spreadsheetml elements ("x")
	SQuote     bool   // single-quoted attributes
	AttrMix    bool   // attributes in random order
	TextStyle  int    // 0 escapes, 1 character references, 2 CDATA, 3 split by comments / CDATA / PIs
	NoRefs     int    // 0 refs everywhere, 1 no cell refs, 2 neither row nor cell refs, 3 some of each are left out, 4 no row refs
	RefStyle   int    // 0 A1, 1 $A$1, 2 a mixture of A1, $A1, A$1, 3 R1C1
	ValueWS    bool   // white space around the values that are not text
	Dim        int    // 0 tight, 1 absent, 2 "A1", 3 too small, 4 too large, 5 corner only
	AbsTargets bool   // absolute part names in relationships
	BookPath   string // default xl/workbook.xml
	SheetDir   string // relative to the book's directory, default "worksheets"
	Store      bool   // no compression
	Shuffle    bool   // part order in the ZIP
	RowOrder   bool   // sheets rels shuffled
	BOM        bool
	Extras     bool // extLst, sheetViews, cols, validations, ...
	NoStyles   bool // omit styles.xml (only if every format is General)
	StylePad   int  // unused xfs in front
	ExtraSST   int  // unused strings in front of the table
	EmptyCells bool // formatted empty cells between stored ones
	Comments   bool // XML comments / PIs between elements
	SelfClose  bool // <c .../> for blanks (else <c ...></c>)
	RowAttrs   bool // spans, ht, ... on rows
	PlainXF    bool // omit applyNumberFormat
	DupSST     bool
	DirEntries bool // directory entries in the ZIP
	Strict     bool // the Strict variant (ISO/IEC 29500-1) with its own namespaces
	UTF16      int  // write one of so many parts as UTF-16
	CaseParts  bool // part names in the ZIP differ in case from the references
	DxfFmts    bool // number formats of conditional formats
	ZipComment bool
}

// XLSXStats reports what the writer exercised.
type XLSXStats struct {
	Shared, Inline, Rich, Phonetic, Formula, Empty int
	Parts                                          int
	UTF16                                          int // parts
	Escapes                                        int // characters written as _xHHHH_
}

// Part is a ZIP member.
type Part struct {
	Name string
	Data []byte
}

type xw struct {
	b  bytes.Buffer
	o  *XLSXOpts
	r  *rand.Rand
	st *XLSXStats

	noRef bool // the next cell goes without a reference
}

// ref writes a cell reference.
func (x *xw) ref(row, col int) string {
	a, b := "", ""
	switch x.o.RefStyle {
	case 1:
		a, b = "$", "$"
	case 2:
		a, b = Pick(x.r, "", "$"), Pick(x.r, "", "$")
	case 3:
		return fmt.Sprintf("R%dC%d", row+1, col+1)
	}
	return fmt.Sprintf("%s%s%s%d", a, ColName(col), b, row+1)
}

func (x *xw) ws(depth int) {
	if x.o.Pretty {
		x.b.WriteString("\n" + strings.Repeat("  ", depth))
		if x.r.IntN(6) == 0 {
			x.b.WriteString("\t\r\n ")
		}
	}
	if x.o.Comments && x.r.IntN(5) == 0 {
		x.b.WriteString(Pick(x.r, "<!-- <c r=\"A1\"><v>99</v></c> -->", "<?pi data 5?>", "<!--x-->"))
	}
}

func (x *xw) q() string {
	if x.o.SQuote {
		return "'"
	}
	return "\""
}

func attrEsc(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '"':
			b.WriteString("&quot;")
		case '\'':
			b.WriteString("&#39;")
		case '\t', '\n', '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// tag opens an element: kv are attribute name/value pairs (values raw).
func (x *xw) tag(name string, self bool, kv ...string) {
	x.b.WriteByte('<')
	x.b.WriteString(x.o.Prefix)
	x.b.WriteString(name)
	n := len(kv) / 2
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if x.o.AttrMix {
		x.r.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	for _, i := range idx {
		sep := " "
		if x.o.Pretty && x.r.IntN(20) == 0 {
			sep = "\n   "
		}
		x.b.WriteString(sep + kv[2*i] + "=" + x.q() + attrEsc(kv[2*i+1]) + x.q())
	}
	if self {
		x.b.WriteString("/>")
	} else {
		x.b.WriteByte('>')
	}
}
func (x *xw) end(name string) { x.b.WriteString("</" + x.o.Prefix + name + ">") }

func esc1(r rune, refs bool) string {
	switch r {
	case '&':
		return "&amp;"
	case '<':
		return "&lt;"
	case '>':
		return "&gt;"
	case '\r':
		return "&#13;"
	}
	if refs {
		return fmt.Sprintf("&#x%X;", r)
	}
	return string(r)
}

// text writes character data.
func (x *xw) text(s string) {
	rs := []rune(s)
	switch x.o.TextStyle {
	case 1:
		for _, r := range rs {
			x.b.WriteString(esc1(r, x.r.IntN(3) == 0))
		}
	case 2:
		if strings.ContainsRune(s, '\r') || len(rs) == 0 {
			for _, r := range rs {
				x.b.WriteString(esc1(r, false))
			}
			return
		}
		x.b.WriteString("<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>")
	case 3:
		for i, r := range rs {
			if i > 0 && (len(rs) < 40 || i%97 == 0) && x.r.IntN(4) == 0 {
				x.b.WriteString(Pick(x.r, "<!-- c -->", "<?p?>", "<![CDATA[]]>"))
			}
			if x.r.IntN(5) == 0 && r != '\r' {
				x.b.WriteString("<![CDATA[" + string(r) + "]]>")
			} else {
				x.b.WriteString(esc1(r, false))
			}
		}
	default:
		for _, r := range rs {
			x.b.WriteString(esc1(r, false))
		}
	}
}

var escapes = regexp.MustCompile("_x[0-9a-fA-F]{4}_")

// UnescapeX decodes an ST_Xstring, from left to right.
func UnescapeX(s string) string {
	var u []uint16
	for s != "" {
		if m := escapes.FindStringIndex(s); m != nil && m[0] == 0 {
			c, _ := strconv.ParseUint(s[2:6], 16, 16)
			u = append(u, uint16(c))
			s = s[7:]
			continue
		}
		_, n := utf8.DecodeRuneInString(s)
		u = append(u, utf16.Encode([]rune(s[:n]))...)
		s = s[n:]
	}
	return string(utf16.Decode(u))
}

// xstr writes a text as an ST_Xstring, some characters of which are escapes.
func (x *xw) xstr(s string) string {
	must := func(r rune) bool { return r < ' ' && r != '\t' && r != '\n' && r != '\r' || r == 0xFFFE || r == 0xFFFF }
	enc := func(all bool) string {
		var b strings.Builder
		for i, r := range s {
			switch {
			case must(r), x.o.Escapes > 0 && x.r.IntN(x.o.Escapes) == 0, r == '\r' && x.o.Escapes > 0,
				r == '_' && (all || escapes.FindStringIndex(s[i:]) != nil && escapes.FindStringIndex(s[i:])[0] == 0):
				f := Pick(x.r, "_x%04X_", "_x%04X_", "_x%04x_")
				for _, u := range utf16.Encode([]rune{r}) {
					fmt.Fprintf(&b, f, u)
				}
				x.st.Escapes++
			default:
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	e := enc(false)
	if UnescapeX(e) != s {
		e = enc(true)
	}
	return e
}

func (x *xw) t(s string) {
	if s != strings.TrimSpace(s) || strings.ContainsAny(s, "\n\t\r") {
		x.tag("t", false, "xml:space", "preserve")
	} else if s == "" && x.r.IntN(2) == 0 {
		x.tag("t", true)
		return
	} else {
		x.tag("t", false)
	}
	x.text(x.xstr(s))
	x.end("t")
}

// richText writes the content of an si / is element.
func (x *xw) richText(c *Cell, depth int) {
	if c.Runs == 0 {
		x.ws(depth)
		x.t(c.Str)
	} else {
		x.st.Rich++
		rs := []rune(c.Str)
		n := c.Runs
		for i := 0; i < n; i++ {
			lo, hi := len(rs)*i/n, len(rs)*(i+1)/n
			x.ws(depth)
			x.tag("r", false)
			if i > 0 || x.r.IntN(2) == 0 {
				x.ws(depth + 1)
				x.tag("rPr", false)
				x.ws(depth + 2)
				x.tag("b", true)
				x.ws(depth + 2)
				x.tag("rFont", true, "val", "Calibri")
				x.ws(depth + 1)
				x.end("rPr")
			}
			x.ws(depth + 1)
			x.t(string(rs[lo:hi]))
			x.ws(depth)
			x.end("r")
		}
	}
	if c.Phon > 0 {
		x.st.Phonetic++
		x.ws(depth)
		x.tag("rPh", false, "sb", "0", "eb", "1")
		x.ws(depth + 1)
		x.t("よみ")
		x.ws(depth)
		x.end("rPh")
		x.ws(depth)
		x.tag("phoneticPr", true, "fontId", "1")
	}
	x.ws(depth - 1)
}

const (
	nsMain = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
	nsRel  = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	nsPkg  = "http://schemas.openxmlformats.org/package/2006/relationships"
)

func (x *xw) root(name string) {
	if x.o.BOM {
		x.b.WriteString("\xEF\xBB\xBF")
	}
	x.b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n")
	ns := "xmlns"
	if x.o.Prefix != "" {
		ns = "xmlns:" + strings.TrimSuffix(x.o.Prefix, ":")
	}
	x.b.WriteString("<" + x.o.Prefix + name + " " + ns + "=" + x.q() + nsMain + x.q() + " xmlns:" + x.o.RelPrefix + "=" + x.q() + nsRel + x.q() + ">")
}

// FormulaText is what formulas are written as; a reader must never report it.
const FormulaText = "SUM(1,2)&\"F\""

// NumText is the decimal text of a number cell.
func NumText(c *Cell) string {
	if c.NumText != "" {
		return c.NumText
	}
	return strings.Replace(strconv.FormatFloat(c.Num, 'g', -1, 64), "e", "E", 1)
}

// BuildXLSX writes the package.
func BuildXLSX(w *Workbook, o XLSXOpts) ([]byte, []Part, XLSXStats) {
	parts, st := XLSXParts(w, o)
	return ZipParts(parts, o), parts, st
}

// XLSXParts builds the parts of the package.
func XLSXParts(w *Workbook, o XLSXOpts) ([]Part, XLSXStats) {
	r := o.Rand
	if r == nil {
		r = rand.New(rand.NewPCG(2, 2))
		o.Rand = r
	}
	var st XLSXStats
	if o.BookPath == "" {
		o.BookPath = "xl/workbook.xml"
	}
	if o.SheetDir == "" {
		o.SheetDir = "worksheets"
	}
	if o.RelPrefix == "" {
		o.RelPrefix = "r"
	}
	if o.Prefix != "" && !strings.HasSuffix(o.Prefix, ":") {
		o.Prefix += ":"
	}
	bookDir := path.Dir(o.BookPath)
	if bookDir == "." {
		bookDir = ""
	}
	nw := func() *xw { return &xw{o: &o, r: r, st: &st} }
	var parts []Part
	add := func(n string, x *xw) { parts = append(parts, Part{n, append([]byte{}, x.b.Bytes()...)}) }
	target := func(rel string) string { // rel is relative to bookDir
		if o.AbsTargets {
			return "/" + path.Join(bookDir, rel)
		}
		return rel
	}

	// shared strings
	type key struct {
		s          string
		runs, phon int
	}
	var sst []*Cell
	for i := 0; i < o.ExtraSST; i++ {
		sst = append(sst, &Cell{Kind: Str, Str: "unused" + strconv.Itoa(i)})
	}
	sstIdx := map[key]int{}
	ref := map[[2]int]int{}
	for si := range w.Sheets {
		for ci := range w.Sheets[si].Cells {
			c := &w.Sheets[si].Cells[ci]
			if c.Kind != Str || c.Inline {
				continue
			}
			k := key{c.Str, c.Runs, c.Phon}
			i, ok := sstIdx[k]
			if !ok || o.DupSST {
				i = len(sst)
				sst = append(sst, c)
				sstIdx[k] = i
			}
			ref[[2]int{si, ci}] = i
		}
	}
	if len(sst) > 0 || r.IntN(2) == 0 {
		x := nw()
		x.root("sst")
		for _, c := range sst {
			x.ws(1)
			if c.Str == "" && c.Runs == 0 && c.Phon == 0 && r.IntN(3) == 0 {
				x.tag("si", true)
				continue
			}
			x.tag("si", false)
			x.richText(c, 2)
			x.end("si")
			st.Shared++
		}
		if o.Extras {
			x.ws(1)
			x.tag("extLst", false)
			x.tag("ext", true, "uri", "{x}")
			x.end("extLst")
		}
		x.ws(0)
		x.end("sst")
		add(path.Join(bookDir, "sharedStrings.xml"), x)
	}
	hasSST := len(parts) == 1

	// styles
	styles := true
	if o.NoStyles {
		styles = false
		for _, f := range w.Fmts {
			if f.ID != 0 {
				styles = true
			}
		}
	}
	pad := 0
	if styles {
		pad = o.StylePad
		x := nw()
		x.root("styleSheet")
		nf := 0
		for _, f := range w.Fmts {
			if f.Code != "" {
				nf++
			}
		}
		if nf > 0 {
			x.ws(1)
			x.tag("numFmts", false, "count", strconv.Itoa(nf))
			for _, f := range w.Fmts {
				if f.Code != "" {
					x.ws(2)
					x.tag("numFmt", true, "numFmtId", strconv.Itoa(f.ID), "formatCode", f.Code)
				}
			}
			x.ws(1)
			x.end("numFmts")
		}
		x.ws(1)
		x.tag("fonts", false, "count", "1")
		x.tag("font", false)
		x.tag("name", true, "val", "Calibri")
		x.end("font")
		x.end("fonts")
		bases := 1
		if r.IntN(4) > 0 {
			bases = Pick(r, 1, 1, 2, 3, 47)
			x.ws(1)
			x.tag("cellStyleXfs", false, "count", strconv.Itoa(bases))
			for i := 0; i < bases; i++ {
				kv := []string{"numFmtId", Pick(r, "0", "14", "9", "22", "49"), "fontId", "0", "fillId", "0", "borderId", "0"}
				if r.IntN(3) == 0 {
					kv = append(kv, "applyNumberFormat", Pick(r, "0", "1"))
				}
				x.tag("xf", true, kv...)
			}
			x.end("cellStyleXfs")
		}
		x.ws(1)
		n := len(w.Fmts)
		if n == 0 {
			n = 1
		}
		x.tag("cellXfs", false, "count", strconv.Itoa(n+pad))
		xf := func(id int) {
			x.ws(2)
			kv := []string{"numFmtId", strconv.Itoa(id), "fontId", "0", "xfId", strconv.Itoa(r.IntN(bases))}
			if !o.PlainXF {
				kv = append(kv, "applyNumberFormat", "1")
			}
			if id == 0 && r.IntN(3) == 0 {
				kv = kv[2:] // the default
			}
			if r.IntN(4) == 0 {
				x.tag("xf", false, kv...)
				x.tag("alignment", true, "horizontal", "center")
				x.end("xf")
			} else {
				x.tag("xf", true, kv...)
			}
		}
		for i := 0; i < pad; i++ {
			xf(Pick(r, 0, 14, 10, 2))
		}
		if len(w.Fmts) == 0 {
			xf(0)
		}
		for _, f := range w.Fmts {
			xf(f.ID)
		}
		x.ws(1)
		x.end("cellXfs")
		x.ws(1)
		x.tag("cellStyles", false, "count", "1")
		x.tag("cellStyle", true, "name", "Normal", "xfId", "0", "builtinId", "0")
		x.end("cellStyles")
		x.ws(1)
		x.tag("dxfs", false, "count", "1")
		x.tag("dxf", false)
		x.tag("font", false)
		x.tag("b", true)
		x.end("font")
		if o.DxfFmts {
			// has no effect on the cells, even if it shares an id
			x.tag("numFmt", true, "numFmtId", Pick(r, "399", "399", "1", "14", "30", "34", "35", "41", "43", "44", "164"), "formatCode", "0.0\"dxf\"")
		}
		x.end("dxf")
		x.end("dxfs")
		if o.Extras {
			x.tag("tableStyles", true, "count", "0", "defaultTableStyle", "TableStyleMedium2")
			x.tag("colors", false)
			x.tag("mruColors", false)
			x.tag("color", true, "rgb", "FFFF0000")
			x.end("mruColors")
			x.end("colors")
			x.tag("extLst", false)
			x.b.WriteString(`<ext uri="{46F421CA-312F-682f-3DD2-61675219B42D}" xmlns:x14="http://schemas.microsoft.com/office/spreadsheetml/2009/9/main"><x14:dxfs count="1"><dxf><font><b/></font></dxf></x14:dxfs></ext>`)
			x.b.WriteString(`<ext uri="{EB79DEF2-80B8-43e5-95BD-54CBDDF9020C}" xmlns:x14="http://schemas.microsoft.com/office/spreadsheetml/2009/9/main"><x14:slicerStyles defaultSlicerStyle="SlicerStyleLight1"/></ext>`)
			x.end("extLst")
		}
		x.ws(0)
		x.end("styleSheet")
		add(path.Join(bookDir, "styles.xml"), x)
	}

	// sheets
	sheetRel := make([]string, len(w.Sheets))
	relIDs := make([]string, len(w.Sheets))
	perm := r.Perm(len(w.Sheets))
	for si := range w.Sheets {
		num := si + 1
		if o.RowOrder {
			num = perm[si] + 1
		}
		sheetRel[si] = path.Join(o.SheetDir, fmt.Sprintf("sheet%d.xml", num))
		if strings.HasPrefix(o.SheetDir, "./") {
			sheetRel[si] = "./" + sheetRel[si]
		}
		relIDs[si] = fmt.Sprintf("rId%d", num)
		x, rels := sheetXML(w, si, &o, r, &st, pad, ref)
		full := path.Join(bookDir, sheetRel[si])
		add(full, x)
		if rels != nil {
			d, f := path.Split(full)
			add(d+"_rels/"+f+".rels", rels)
		}
	}

	// workbook
	x := nw()
	x.root("workbook")
	x.ws(1)
	if o.Extras {
		x.tag("fileVersion", true, "appName", "xl", "lastEdited", "7", "lowestEdited", "4", "rupBuild", "22228")
		x.ws(1)
	}
	if w.Date1904 {
		x.tag("workbookPr", true, "date1904", Pick(r, "1", "true"), "defaultThemeVersion", "124226")
	} else if r.IntN(2) == 0 {
		if r.IntN(2) == 0 {
			x.tag("workbookPr", true, "date1904", Pick(r, "0", "false"))
		} else {
			x.tag("workbookPr", true, "codeName", "ThisWorkbook")
		}
	}
	if o.Extras {
		x.b.WriteString(`<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="x15"><x15ac:absPath url="C:\\Users\\a\\" xmlns:x15ac="http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac"/></mc:Choice></mc:AlternateContent>`)
		x.tag("bookViews", false)
		x.tag("workbookView", true, "xWindow", "0", "yWindow", "0", "windowWidth", "22260", "windowHeight", "12645")
		x.end("bookViews")
	}
	x.ws(1)
	x.tag("sheets", false)
	for si, s := range w.Sheets {
		x.ws(2)
		kv := []string{"name", x.xstr(s.Name), "sheetId", strconv.Itoa(si + 1), o.RelPrefix + ":id", relIDs[si]}
		if s.Hidden == 1 {
			kv = append(kv, "state", "hidden")
		} else if s.Hidden == 2 {
			kv = append(kv, "state", "veryHidden")
		}
		x.tag("sheet", r.IntN(4) > 0, kv...)
		if !strings.HasSuffix(x.b.String(), "/>") {
			x.end("sheet")
		}
	}
	x.ws(1)
	x.end("sheets")
	if o.Extras {
		x.ws(1)
		x.tag("definedNames", false)
		x.tag("definedName", false, "name", "_xlnm.Print_Area", "localSheetId", "0")
		x.b.WriteString("Sheet1!$A$1:$B$2")
		x.end("definedName")
		x.end("definedNames")
		x.ws(1)
		x.tag("calcPr", true, "calcId", "124519")
		x.ws(1)
		x.tag("extLst", false)
		x.b.WriteString(`<ext uri="{140A7094-0E35-4892-8432-C4D2E57EDEB5}" xmlns:x15="http://schemas.microsoft.com/office/spreadsheetml/2010/11/main"><x15:workbookPr chartTrackingRefBase="1"/></ext>`)
		x.b.WriteString(`<ext uri="{B58B0392-4F1F-4190-BB64-5DF3571DCE5F}" xmlns:xcalcf="http://schemas.microsoft.com/office/spreadsheetml/2018/calcfeatures"><xcalcf:calcFeatures><xcalcf:feature name="microsoft.com:RD"/></xcalcf:calcFeatures></ext>`)
		x.end("extLst")
	}
	x.ws(0)
	x.end("workbook")
	add(o.BookPath, x)

	// relationships
	type rel struct{ id, typ, target, mode string }
	relsPart := func(name string, rs []rel) {
		x := nw()
		if o.BOM {
			x.b.WriteString("\xEF\xBB\xBF")
		}
		x.b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
		save := o.Prefix
		o.Prefix = ""
		x.tag("Relationships", false, "xmlns", nsPkg)
		for _, q := range rs {
			x.ws(1)
			kv := []string{"Id", q.id, "Type", q.typ, "Target", q.target}
			if q.mode != "" {
				kv = append(kv, "TargetMode", q.mode)
			}
			x.tag("Relationship", true, kv...)
		}
		x.ws(0)
		x.end("Relationships")
		o.Prefix = save
		add(name, x)
	}
	var rs []rel
	for si := range w.Sheets {
		typ := "/worksheet"
		if w.Sheets[si].Type == 2 {
			typ = "/chartsheet"
		}
		rs = append(rs, rel{relIDs[si], nsRel + typ, target(sheetRel[si]), ""})
	}
	if styles {
		rs = append(rs, rel{"rIdS", nsRel + "/styles", target("styles.xml"), ""})
	}
	if hasSST {
		rs = append(rs, rel{"rIdT", nsRel + "/sharedStrings", target("sharedStrings.xml"), ""})
	}
	if o.Extras {
		rs = append(rs, rel{"rIdX", nsRel + "/theme", target("theme/theme1.xml"), ""})
	}
	if o.RowOrder {
		r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	}
	d, f := path.Split(o.BookPath)
	relsPart(d+"_rels/"+f+".rels", rs)
	bt := o.BookPath
	if o.AbsTargets {
		bt = "/" + bt
	}
	top := []rel{{"rId1", nsRel + "/officeDocument", bt, ""}}
	if o.Extras {
		top = append(top, rel{"rId2", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "docProps/core.xml", ""},
			rel{"rId3", nsRel + "/extended-properties", "docProps/app.xml", ""})
	}
	if o.RowOrder {
		r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	}
	relsPart("_rels/.rels", top)
	parts = append(parts, Part{"[Content_Types].xml", []byte(`<?xml version="1.0"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="xml" ContentType="application/xml"/></Types>`)})
	if o.Extras {
		parts = append(parts, Part{"docProps/app.xml", []byte(`<?xml version="1.0"?><Properties/>`)}, Part{"docProps/core.xml", []byte(`<?xml version="1.0"?><x/>`)},
			Part{path.Join(bookDir, "theme/theme1.xml"), []byte(`<?xml version="1.0"?><a:theme xmlns:a="x"/>`)})
	}
	if o.Strict {
		for i := range parts {
			parts[i].Data = bytes.ReplaceAll(parts[i].Data, []byte(nsRel), []byte("http://purl.oclc.org/ooxml/officeDocument/relationships"))
			parts[i].Data = bytes.ReplaceAll(parts[i].Data, []byte(nsMain), []byte("http://purl.oclc.org/ooxml/spreadsheetml/main"))
		}
	}
	if o.UTF16 > 0 {
		for i := range parts {
			if r.IntN(o.UTF16) == 0 {
				parts[i].Data = toUTF16(parts[i].Data, r.IntN(2) == 0)
				st.UTF16++
			}
		}
	}
	if o.CaseParts {
		for i := range parts {
			parts[i].Name = Pick(r, strings.ToLower, strings.ToUpper, func(s string) string { return s })(parts[i].Name)
		}
	}
	st.Parts = len(parts)
	return parts, st
}

func sheetXML(w *Workbook, si int, o *XLSXOpts, r *rand.Rand, st *XLSXStats, pad int, ref map[[2]int]int) (*xw, *xw) {
	s := &w.Sheets[si]
	x := &xw{o: o, r: r, st: st}
	if s.Type == 2 {
		x.root("chartsheet")
		x.ws(1)
		x.tag("sheetPr", true)
		x.ws(1)
		x.tag("drawing", true, o.RelPrefix+":id", "rIdD")
		x.ws(0)
		x.end("chartsheet")
		return x, nil
	}
	x.root("worksheet")
	if o.Extras {
		x.ws(1)
		x.tag("sheetPr", false)
		x.tag("tabColor", true, "rgb", "FFFF0000")
		x.end("sheetPr")
	}
	rows, cols := s.Extent()
	dim := ""
	switch o.Dim {
	case 0:
		if rows*cols > 0 {
			mr, mc := 1<<30, 1<<30
			for _, c := range s.Cells {
				mr, mc = min(mr, c.Row), min(mc, c.Col)
			}
			dim = x.ref(mr, mc)
			if rows-1 != mr || cols-1 != mc {
				dim += ":" + x.ref(rows-1, cols-1)
			}
		} else {
			dim = "A1"
		}
	case 2:
		dim = "A1"
	case 3:
		dim = "A1:" + x.ref(max(0, rows/2-1), max(0, cols/2-1))
	case 4:
		dim = "A1:" + x.ref(rows+3, cols+2)
	case 5:
		if rows*cols > 0 {
			dim = x.ref(rows-1, cols-1)
		} else {
			dim = "A1"
		}
	}
	if s.DimRows > 0 && s.DimCols > 0 && o.Dim != 1 {
		dim = "A1:" + x.ref(s.DimRows-1, s.DimCols-1)
	}
	if dim != "" {
		x.ws(1)
		x.tag("dimension", true, "ref", dim)
	}
	if o.Extras {
		x.ws(1)
		x.tag("sheetViews", false)
		x.tag("sheetView", false, "workbookViewId", "0")
		x.tag("pane", true, "xSplit", "1", "topLeftCell", "B1", "state", "frozen")
		x.tag("selection", true, "activeCell", "A1", "sqref", "A1")
		x.end("sheetView")
		x.end("sheetViews")
		x.ws(1)
		x.tag("sheetFormatPr", true, "defaultRowHeight", "15")
		x.ws(1)
		x.tag("cols", false)
		x.tag("col", true, "min", "1", "max", "3", "width", "11", "customWidth", "1", "hidden", Pick(r, "0", "1"))
		x.end("cols")
	}
	x.ws(1)
	x.tag("sheetData", false)
	byRow := map[int][]int{}
	var rowNums []int
	for ci, c := range s.Cells {
		if _, ok := byRow[c.Row]; !ok {
			rowNums = append(rowNums, c.Row)
		}
		byRow[c.Row] = append(byRow[c.Row], ci)
	}
	sort.Ints(rowNums)
	next := 0
	for _, rn := range rowNums {
		if o.NoRefs == 2 {
			for ; next < rn; next++ {
				x.ws(2)
				x.tag("row", true)
			}
		}
		rowRef := o.NoRefs < 2 || o.NoRefs == 3 && (rn != next || r.IntN(2) == 0)
		if o.NoRefs == 4 && r.IntN(2) == 0 {
			rowRef = true
		}
		next = rn + 1
		cs := byRow[rn]
		sort.Slice(cs, func(i, j int) bool { return s.Cells[cs[i]].Col < s.Cells[cs[j]].Col })
		x.ws(2)
		var kv []string
		if rowRef {
			kv = append(kv, "r", strconv.Itoa(rn+1))
		}
		if o.RowAttrs {
			kv = append(kv, "spans", "1:5", "ht", "15.75", "s", "1", "customFormat", "1")
			if r.IntN(3) == 0 {
				kv = append(kv, "hidden", Pick(r, "1", "0", "true"), "outlineLevel", "1", "collapsed", "1", "thickBot", "1")
			}
		}
		x.tag("row", false, kv...)
		col := 0
		for _, ci := range cs {
			c := &s.Cells[ci]
			x.noRef = o.NoRefs == 1 || o.NoRefs == 2 || o.NoRefs == 3 && c.Col == col && r.IntN(2) == 0
			if o.NoRefs == 1 || o.NoRefs == 2 {
				for ; col < c.Col; col++ {
					x.ws(3)
					x.tag("c", true)
					st.Empty++
				}
			} else if o.EmptyCells && col < c.Col && r.IntN(2) == 0 {
				x.ws(3)
				x.tag("c", true, "r", x.ref(rn, col), "s", strconv.Itoa(r.IntN(len(w.Fmts)+1)))
				st.Empty++
			}
			col = c.Col + 1
			x.ws(3)
			x.cell(w, si, ci, pad, ref)
		}
		x.ws(2)
		x.end("row")
	}
	x.ws(1)
	x.end("sheetData")
	if o.Extras {
		x.ws(1)
		x.tag("sheetProtection", true, "sheet", "1")
		x.ws(1)
		x.tag("autoFilter", true, "ref", "A1:B2")
	}
	if len(s.Merges) > 0 {
		x.ws(1)
		x.tag("mergeCells", false, "count", strconv.Itoa(len(s.Merges)))
		for _, m := range s.Merges {
			x.ws(2)
			x.tag("mergeCell", true, "ref", x.ref(m.R1, m.C1)+":"+x.ref(m.R2, m.C2))
		}
		x.ws(1)
		x.end("mergeCells")
	}
	if o.Extras {
		x.ws(1)
		x.tag("conditionalFormatting", false, "sqref", "A1:B9")
		x.tag("cfRule", false, "type", "cellIs", "dxfId", "0", "priority", "1", "operator", "equal")
		x.tag("formula", false)
		x.b.WriteString("12345")
		x.end("formula")
		x.end("cfRule")
		x.end("conditionalFormatting")
		x.ws(1)
		x.tag("dataValidations", false, "count", "1")
		x.tag("dataValidation", false, "type", "list", "sqref", "A1")
		x.tag("formula1", false)
		x.b.WriteString("\"a,b\"")
		x.end("formula1")
		x.end("dataValidation")
		x.end("dataValidations")
	}
	var rels *xw
	if len(s.Links) > 0 {
		rels = &xw{o: o, r: r, st: st}
		save := o.Prefix
		o.Prefix = ""
		rels.b.WriteString(`<?xml version="1.0"?>`)
		rels.tag("Relationships", false, "xmlns", nsPkg)
		rels.tag("Relationship", true, "Id", "rIdD", "Type", nsRel+"/drawing", "Target", "../drawings/drawing1.xml")
		o.Prefix = save
		x.ws(1)
		x.tag("hyperlinks", false)
		for li, l := range s.Links {
			rf := x.ref(l.R1, l.C1)
			if l.R2 != l.R1 || l.C2 != l.C1 {
				rf += ":" + x.ref(l.R2, l.C2)
			}
			kv := []string{"ref", rf}
			if l.Target != "" {
				id := fmt.Sprintf("rId%d", len(s.Links)-li)
				kv = append(kv, o.RelPrefix+":id", id)
				if l.MissingRel {
					switch r.IntN(4) { // none of these is a link to show
					case 0:
						o.Prefix = ""
						rels.tag("Relationship", true, "Id", id, "Type", nsRel+"/hyperlink", "Target", "#Sheet1!A1")
					case 1:
						o.Prefix = ""
						rels.tag("Relationship", true, "Id", id, "Type", nsRel+"/hyperlink", "Target", "../a.xml", "TargetMode", "Internal")
					case 2:
						o.Prefix = ""
						rels.tag("Relationship", true, "Id", id, "Type", nsRel+"/image", "Target", "file:///a.png", "TargetMode", "External")
					}
					o.Prefix = save
				} else {
					o.Prefix = ""
					rels.ws(1)
					rels.tag("Relationship", true, "Id", id, "Type", nsRel+"/hyperlink", "Target", l.Target, "TargetMode", "External")
					o.Prefix = save
				}
			}
			if l.Location != "" {
				kv = append(kv, "location", l.Location)
			}
			if l.Display != "" {
				kv = append(kv, "display", l.Display, "tooltip", "tip "+l.Display)
			}
			x.ws(2)
			x.tag("hyperlink", true, kv...)
		}
		x.ws(1)
		x.end("hyperlinks")
		rels.b.WriteString("</Relationships>")
	}
	if o.Extras {
		x.ws(1)
		x.tag("pageMargins", true, "left", "0.7", "right", "0.7")
		x.ws(1)
		x.tag("headerFooter", false)
		x.tag("oddHeader", false)
		x.b.WriteString("&amp;CHeader 77")
		x.end("oddHeader")
		x.end("headerFooter")
		x.ws(1)
		x.tag("legacyDrawing", true, o.RelPrefix+":id", "rIdV")
		x.b.WriteString(`<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="x14"><controls><mc:AlternateContent><mc:Choice Requires="x14"><control shapeId="1025" ` + o.RelPrefix + `:id="rIdC" name="Button 1"><controlPr defaultSize="0" print="0"><anchor moveWithCells="1"><from><xdr:col xmlns:xdr="d">1</xdr:col><xdr:colOff xmlns:xdr="d">0</xdr:colOff><xdr:row xmlns:xdr="d">2</xdr:row><xdr:rowOff xmlns:xdr="d">0</xdr:rowOff></from></anchor></controlPr></control></mc:Choice></mc:AlternateContent></controls></mc:Choice></mc:AlternateContent>`)
		x.tag("tableParts", false, "count", "1")
		x.tag("tablePart", true, o.RelPrefix+":id", "rIdTb")
		x.end("tableParts")
		x.ws(1)
		x.tag("extLst", false)
		x.b.WriteString(`<ext uri="{05C60535-1F16-4fd2-B633-F4F36F0B64E0}" xmlns:x14="x14"><x14:sparklineGroups><x14:sparklineGroup type="column"><x14:sparklines><x14:sparkline><xm:f xmlns:xm="m">Sheet1!A1:B1</xm:f><xm:sqref xmlns:xm="m">C1</xm:sqref></x14:sparkline></x14:sparklines></x14:sparklineGroup></x14:sparklineGroups></ext>`)
		x.b.WriteString(`<ext uri="{78C0D931}" xmlns:x14="x14"><x14:conditionalFormattings><x14:cfRule><xm:f xmlns:xm="m">55</xm:f></x14:cfRule></x14:conditionalFormattings></ext>`)
		x.end("extLst")
	}
	x.ws(0)
	x.end("worksheet")
	return x, rels
}

func (x *xw) cell(w *Workbook, si, ci, pad int, ref map[[2]int]int) {
	c := &w.Sheets[si].Cells[ci]
	var kv []string
	if !x.noRef {
		kv = append(kv, "r", x.ref(c.Row, c.Col))
	}
	if c.Fmt+pad > 0 || x.r.IntN(3) == 0 {
		kv = append(kv, "s", strconv.Itoa(c.Fmt+pad))
	}
	v := func(s string) {
		x.ws(4)
		x.tag("v", false)
		x.text(s)
		x.end("v")
	}
	vws := func(s string) {
		if x.o.ValueWS && x.r.IntN(2) == 0 {
			s = Pick(x.r, " ", "", "\n\t") + s + Pick(x.r, " ", "\r\n  ", "\t")
		}
		v(s)
	}
	f := func() {
		x.st.Formula++
		x.ws(4)
		switch x.r.IntN(4) {
		case 0:
			x.tag("f", true, "t", "shared", "si", "0")
		case 1:
			x.tag("f", false, "t", "array", "ref", x.ref(c.Row, c.Col))
			x.b.WriteString("4242")
			x.end("f")
		default:
			x.tag("f", false)
			x.text(FormulaText)
			x.end("f")
		}
	}
	open := func(t string) {
		k := kv
		if t != "" {
			k = append(append([]string{}, kv...), "t", t)
		}
		if x.r.IntN(6) == 0 && x.o.Extras {
			k = append(k, "cm", "1")
		}
		x.tag("c", false, k...)
	}
	num := func(t string) string {
		if t == "" && x.r.IntN(3) == 0 {
			return "n"
		}
		return t
	}
	switch c.Kind {
	case Blank:
		switch {
		case c.Str == "f": // formula without a cached value
			open("")
			f()
			if x.r.IntN(2) == 0 {
				x.ws(4)
				x.tag("v", x.r.IntN(2) == 0)
				if !strings.HasSuffix(x.b.String(), "/>") {
					x.end("v")
				}
			}
		case x.o.SelfClose:
			x.tag("c", true, kv...)
			return
		case x.r.IntN(3) == 0: // typed, but without a value
			t := Pick(x.r, "n", "s", "b", "e", "str", "inlineStr")
			open(t)
			switch x.r.IntN(4) {
			case 0:
				x.ws(4)
				x.tag("v", true)
			case 1:
				x.ws(4)
				x.tag("v", false)
				x.end("v")
			case 2:
				if t == "inlineStr" {
					x.tag("is", false)
					x.tag("t", true)
					x.end("is")
				}
			}
		default:
			open("")
		}
	case Num:
		open(num(""))
		vws(NumText(c))
	case FNum:
		open(num(""))
		f()
		vws(NumText(c))
	case Str:
		if c.Inline {
			open("inlineStr")
			x.ws(4)
			x.tag("is", false)
			x.richText(c, 5)
			x.end("is")
			x.st.Inline++
		} else {
			open("s")
			vws(strconv.Itoa(ref[[2]int{si, ci}]))
		}
	case FStr:
		open("str")
		f()
		v(x.xstr(c.Str))
	case Bool, FBool:
		open("b")
		if c.Kind == FBool {
			f()
		}
		if x.r.IntN(6) == 0 {
			vws(strconv.FormatBool(c.Bool))
		} else {
			vws(strconv.Itoa(b2i(c.Bool)))
		}
	case Err, FErr:
		open("e")
		if c.Kind == FErr {
			f()
		}
		v(ErrText[c.Err])
	}
	x.ws(3)
	x.end("c")
}

// toUTF16 converts an XML part to UTF-16 with a byte order mark.
func toUTF16(b []byte, big bool) []byte {
	s := strings.TrimPrefix(string(b), "\xEF\xBB\xBF")
	s = strings.Replace(s, `encoding="UTF-8"`, `encoding="UTF-16"`, 1)
	if strings.HasPrefix(s, `<?xml version="1.0"?>`) {
		s = strings.Replace(s, `?>`, ` encoding="UTF-16"?>`, 1)
	}
	var out []byte
	for _, u := range append([]uint16{0xFEFF}, utf16.Encode([]rune(s))...) {
		if big {
			out = append(out, byte(u>>8), byte(u))
		} else {
			out = append(out, byte(u), byte(u>>8))
		}
	}
	return out
}

// ZipParts packs the parts.
func ZipParts(parts []Part, o XLSXOpts) []byte {
	idx := make([]int, len(parts))
	for i := range idx {
		idx[i] = i
	}
	if o.Shuffle && o.Rand != nil {
		o.Rand.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	if o.DirEntries {
		z.Create("xl/")
		z.Create("xl/worksheets/")
	}
	for _, i := range idx {
		m := zip.Deflate
		if o.Store {
			m = zip.Store
		}
		f, _ := z.CreateHeader(&zip.FileHeader{Name: parts[i].Name, Method: m})
		f.Write(parts[i].Data)
	}
	if o.ZipComment {
		z.SetComment("a comment")
	}
	z.Close()
	return b.Bytes()
}

// RandXLSXOpts picks a random layout.
func RandXLSXOpts(r *rand.Rand) XLSXOpts {
	b := func(n int) bool { return r.IntN(n) == 0 }
	return XLSXOpts{
		Rand: r, Escapes: Pick(r, 0, 0, 0, 0, 2, 20), RelPrefix: Pick(r, "", "", "", "rel", "d3p1", "R", "ns1", "relationships"), Pretty: b(2), Prefix: Pick(r, "", "", "", "x", "ss"), SQuote: b(4), AttrMix: b(2),
		TextStyle: Pick(r, 0, 0, 1, 2, 3), NoRefs: Pick(r, 0, 0, 0, 0, 1, 2, 3, 3, 4), RefStyle: Pick(r, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3), ValueWS: b(4), Dim: r.IntN(6), AbsTargets: b(3),
		BookPath: Pick(r, "", "", "xl/book1.xml", "workbook.xml", "a/b/wb.xml"), SheetDir: Pick(r, "", "", "sheets", "../ws", "./worksheets", "deep/er"),
		Store: b(3), Shuffle: b(2), RowOrder: b(2), BOM: b(6), Extras: b(2), NoStyles: b(4), StylePad: Pick(r, 0, 0, 1, 3),
		EmptyCells: b(2), Comments: b(3), SelfClose: b(2), RowAttrs: b(2), PlainXF: b(3), DupSST: b(5), DirEntries: b(6),
		Strict: b(12), UTF16: Pick(r, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 3), CaseParts: b(12), DxfFmts: b(3), ZipComment: b(20),
	}
}
