package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

// usage is what exercising one file took and gave.
type usage struct {
	openAlloc, readAlloc uint64
	area                 int // cells the rows returned have
	sheets, rows         int
	text                 int // bytes of text returned
	unseen               int // sheets of unknown area
	outcome              string
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// errClass is an error message without what varies.
func errClass(err error) string {
	s := err.Error()
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return '#'
		}
		return r
	}, s[:min(len(s), 60)])
}

// exercise opens a file, lists its sheets, gets and reads all of them.
func exercise(c *mon.Ctx, path string, open func(string) (grate.Source, error)) usage {
	var u usage
	a0 := allocated()
	src, err := open(path)
	u.openAlloc = allocated() - a0
	if err != nil {
		c.Count("open_errors", 1)
		u.outcome = "open: " + errClass(err)
		u.unseen++
		return u
	}
	if src == nil {
		c.Fatal("nil", "Open returns neither a source nor an error")
	}
	c.Count("opened", 1)
	defer src.Close()
	names, err := src.List()
	if err != nil {
		u.outcome = "list: " + errClass(err)
		return u
	}
	if h, ok := src.(interface{ ListHidden() ([]string, error) }); ok {
		hn, err := h.ListHidden()
		if err == nil {
			names = append(names, hn...)
		}
	}
	done := map[string]bool{}
	for k, n := range names {
		if done[n] || k > 200 {
			continue
		}
		done[n] = true
		a0 = allocated()
		col, err := src.Get(n)
		u.openAlloc += allocated() - a0
		if err != nil {
			c.Count("get_errors", 1)
			u.outcome += "get: " + errClass(err)
			u.unseen++
			if c.Rand.IntN(4) > 0 {
				continue
			}
			if col, err = src.Get(n); err != nil {
				continue
			}
			c.Count("get_errors_gone", 1)
		}
		if col == nil {
			c.Fatal("nil", "Get returns neither a collection nor an error")
		}
		u.sheets++
		a0 = allocated()
		col.IsEmpty()
		size := 0
		for col.Next() {
			s, t, f := col.Strings(), col.Types(), col.Formats()
			if len(s) != len(t) || len(s) != len(f) {
				c.Fatal("lengths", "%d strings, %d types, %d formats in one row", len(s), len(t), len(f))
			}
			u.rows++
			size += len(s) + 8
			u.area += len(s) + 8
			for _, x := range s {
				u.text += len(x)
			}
			if !allBlank(s, t) {
				args := make([]interface{}, len(t))
				for i := range t {
					args[i] = dest(t[i])
				}
				if err := col.Scan(args...); err != nil && c.Rand.IntN(4) == 0 {
					for i := range t {
						args[i] = new(string)
					}
					col.Scan(args...)
				}
			}
			if size > 2<<20 {
				c.Count("capped", 1)
				u.unseen++
				break
			}
		}
		u.readAlloc += allocated() - a0
		if err := col.Err(); err != nil {
			u.outcome += "err: " + errClass(err)
		} else {
			u.outcome += fmt.Sprintf("%d rows;", min(size, 100))
		}
	}
	c.Count("sheets", u.sheets)
	c.Count("rows", u.rows)
	return u
}

// hostile runs one malformed file. area is the sheet area it declares, -1: not known.
func hostile(c *mon.Ctx, ext string, b []byte, what string, area int, open func(string) (grate.Source, error)) usage {
	c.Artifact("input"+ext, b)
	c.Artifact("what.txt", []byte(what))
	p := c.Dir + "/h" + ext
	c.Must(os.WriteFile(p, b, 0o644))
	t0 := mon.CPU()
	u := exercise(c, p, open)
	if os.Getenv("VGRATE_SLOW") != "" && mon.CPU()-t0 > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow %v case %d %s: %+v\n", mon.CPU()-t0, c.Index, what, u)
	}
	if d := mon.CPU() - t0; d > 10*time.Second {
		c.Fatal("slow", "%s: a file of %d bytes takes %v of CPU time (%s)", what, len(b), d, u.outcome)
	}
	c.Count("files", 1)
	c.Key(what, u.outcome)
	if area < 0 {
		area = u.unseen << 24
	}
	area += u.area
	limit := uint64(4<<20) + 250*uint64(len(b)) + 200*uint64(area)
	if os.Getenv("VGRATE_SLOW") != "" && u.openAlloc > limit/3 {
		fmt.Fprintf(os.Stderr, "alloc %d of %d case %d %s len %d area %d: %+v\n", u.openAlloc, limit, c.Index, what, len(b), area, u)
	}
	if u.openAlloc > limit {
		c.Fatal("alloc", "%s: a file of %d bytes with a sheet area of %d cells allocates %d bytes when it is opened (%s)", what, len(b), area, u.openAlloc, u.outcome)
	}
	limit = uint64(4<<20) + 50*uint64(len(b)) + 500*uint64(u.area) + 60*uint64(u.text)
	if u.readAlloc > limit {
		c.Fatal("alloc", "%s: reading %d cells with %d bytes of text from a file of %d bytes allocates %d bytes", what, u.area, u.text, len(b), u.readAlloc)
	}
	return u
}

func anyErr(err error) bool { return err != nil && !errors.Is(err, grate.ErrNotInFormat) }

// richBook has everything: formats, dates, merges, links, charts, hidden sheets.
func richBook(r *rand.Rand, isXLS bool, cells int) *wb.Workbook {
	w := genBook(r, GenOpts{XLS: isXLS, MaxSheets: 3, MaxCells: cells, Formats: true, Hidden: true, Charts: isXLS})
	for i, n := 0, r.IntN(4); i < n; i++ {
		w.Fmts = append(w.Fmts, wb.Pick(r, wb.Fmt{ID: 14}, wb.Fmt{ID: 22}, wb.Fmt{ID: 46}, wb.Fmt{ID: 180 + i, Code: "yyyy-mm-dd hh:mm:ss.000"}, wb.Fmt{ID: 190 + i, Code: `[Red]#,##0.00;"neg" -0%;@`}, wb.Fmt{ID: 195 + i, Code: "[h]:mm AM/PM \"x\""}))
	}
	w.Date1904 = r.IntN(5) == 0
	for si := range w.Sheets {
		s := &w.Sheets[si]
		for k := range s.Cells {
			if s.Cells[k].Kind == wb.Num && r.IntN(3) == 0 {
				s.Cells[k].Fmt = r.IntN(len(w.Fmts))
			}
		}
		for k, n := 0, r.IntN(4); k < n; k++ {
			m := wb.Merge{R1: r.IntN(10), C1: r.IntN(10)}
			m.R2, m.C2 = m.R1+r.IntN(4), m.C1+r.IntN(4)
			if !overlaps(s.Merges, m) {
				s.Merges = append(s.Merges, m)
			}
		}
		for k, n := 0, r.IntN(4); k < n; k++ {
			l := wb.Link{R1: r.IntN(10), C1: r.IntN(10), Moniker: r.IntN(5), Target: "http://example.com/" + randRunes(r, r.IntN(9)), Display: wb.Pick(r, "", "text")}
			if isXLS && l.Moniker == 1 {
				l.Target = asciiText(l.Target)
			}
			l.R2, l.C2 = l.R1+r.IntN(2), l.C1+r.IntN(2)
			if r.IntN(3) == 0 {
				l.Location = "Sheet1!A1"
			}
			s.Links = append(s.Links, l)
		}
	}
	return w
}

func asciiText(s string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x20 || c > 0x7E {
			return 'u'
		}
		return c
	}, s)
}

var hostile1 = []uint64{0, 1, 2, 3, 0x0F, 0x10, 0x7F, 0x80, 0xFE, 0xFF}
var hostile2 = []uint64{0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x2020, 0x2021}
var hostile4 = []uint64{0, 1, 0xFF, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0x7FFFFFFE, 0x3FFFFFFF, 0x40000000, 0x20000000}

// setField overwrites w bytes at off.
func setField(b []byte, off, w int, v uint64) {
	for i := 0; i < w && off+i < len(b); i++ {
		b[off+i] = byte(v >> (8 * i))
	}
}

func getField(b []byte, off, w int) (v uint64) {
	for i := 0; i < w && off+i < len(b); i++ {
		v |= uint64(b[off+i]) << (8 * i)
	}
	return
}

// hostileValue picks a value for a field of w bytes.
func hostileValue(r *rand.Rand, old uint64, w int) uint64 {
	switch r.IntN(5) {
	case 0:
		return old + uint64(r.IntN(5)) - 2
	case 1:
		return r.Uint64()
	}
	switch w {
	case 1:
		return hostile1[r.IntN(len(hostile1))]
	case 2:
		return hostile2[r.IntN(len(hostile2))]
	case 4:
		return hostile4[r.IntN(len(hostile4))]
	}
	return wb.Pick[uint64](r, 0, 1, 1<<63, 1<<63-1, 1<<64-1, 1<<32, 1<<32-1, 1<<31, 1<<40, 0x10000)
}

// mutateRaw changes bytes anywhere.
func mutateRaw(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.IntN(wb.Pick(r, 1, 3, 20)); n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		switch r.IntN(9) {
		case 0:
			b[i] ^= 1 << r.IntN(8)
		case 1:
			b[i] = byte(r.IntN(256))
		case 2, 3:
			w := wb.Pick(r, 1, 2, 4, 8)
			setField(b, i, w, hostileValue(r, getField(b, i, w), w))
		case 4: // delete
			j := min(len(b), i+1+r.IntN(wb.Pick(r, 2, 100, 1000)))
			b = append(b[:i:i], b[j:]...)
		case 5: // duplicate
			j := min(len(b), i+1+r.IntN(wb.Pick(r, 2, 100, 1000)))
			b = append(b[:j:j], b[i:]...)
		case 6: // insert
			b = append(b[:i:i], append(randBytes(r, 1+r.IntN(20)), b[i:]...)...)
		case 7: // copy a block elsewhere
			n := min(len(b)-i, 1+r.IntN(200))
			copy(b[r.IntN(len(b)):], append([]byte{}, b[i:i+n]...))
		case 8:
			n := min(len(b)-i, 1+r.IntN(600))
			v := wb.Pick[byte](r, 0, 0xFF, 0x20, byte(r.IntN(256)))
			for k := 0; k < n; k++ {
				b[i+k] = v
			}
		}
	}
	return b
}

var fmtTokens = []string{"0", "0", "#", "#", "?", "?", ".", ",", "%", "E+0", "E-0", "e+00", "E+", "E", "/", "?/?", "# ??/??", "0/16", "\"lit\"", "\"", "\\x", "\\", "_)", "_", "* ", "*", "@", ";", ";", "[Red]", "[>1]", "[<=-2.5]", "[", "]", "[h]", "[mm]", "[ss]", "[$-409]", "[$€-2]", "[=]",
	"y", "yy", "yyyy", "m", "mm", "mmm", "mmmmm", "d", "dd", "dddd", "h", "hh", "s", "ss", "ss.0", ".000", "AM/PM", "A/P", "am/pm", "General", "general", " ", "-", "(", ")", "$", ":", "b", "g", "n", "é", "日", "\x00", "0.00", "#,##0", "z", "\n", "aaa", "[DBNum1]", "上午/下午"}

// fmtSoup is a format code of arbitrary tokens.
func fmtSoup(r *rand.Rand) string {
	var b strings.Builder
	if r.IntN(20) == 0 {
		return strings.Repeat(fmtTokens[r.IntN(len(fmtTokens))], 1+r.IntN(200))
	}
	for n := 1 + r.IntN(wb.Pick(r, 3, 6, 12, 40)); n > 0; n-- {
		b.WriteString(fmtTokens[r.IntN(len(fmtTokens))])
	}
	return b.String()
}

// soupBook uses every one of many such codes with several values.
func soupBook(r *rand.Rand) *wb.Workbook {
	w := &wb.Workbook{Fmts: []wb.Fmt{{}}, Date1904: r.IntN(2) == 0}
	s := wb.Sheet{Name: "S", DimRows: -1, DimCols: -1}
	for i := 0; i < 120; i++ {
		code := fmtSoup(r)
		if len(code) > 250 {
			code = strings.ToValidUTF8(code[:250], "")
		}
		w.Fmts = append(w.Fmts, wb.Fmt{ID: 164 + i, Code: code})
		for k := 0; k < 6; k++ {
			c := wb.Cell{Row: i, Col: k, Kind: wb.Num, Fmt: i + 1}
			switch k {
			case 0:
				c.Num = wb.Pick(r, 0, -0.0001, 0.5, 1, -1, 12345.678, 1e15, -1e300, 5e-324, 1e308, -2, 0.9999999)
			case 1:
				c.Num = randNum(r)
			case 2:
				c.Num = float64(r.IntN(3000000)) + r.Float64()
			case 3:
				c.Num = float64(r.IntN(200000) - 100000)
			case 4:
				c.Kind, c.Str = wb.Str, wb.Pick(r, "text", "12", "true", "2020-01-01", "1e400", "NaN", "-", "99999999999999999999")
			case 5:
				c.Kind, c.Bool = wb.Bool, r.IntN(2) == 0
			}
			s.Cells = append(s.Cells, c)
		}
	}
	w.Sheets = []wb.Sheet{s}
	return w
}

// RichBook is richBook, for the fuzz targets.
func RichBook(r *rand.Rand, isXLS bool, cells int) *wb.Workbook { return richBook(r, isXLS, cells) }
