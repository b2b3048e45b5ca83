package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C29", Quick: 180, Thorough: 6000, CPUSec: 200, Workers: 6,
		Rule:      "each case makes two well-formed files of the same shape (rows, columns, texts, long texts, runs, merged ranges, links, formats, styles, sheets, streams, fields, ...), one with eight times as much of it as the other, reads both completely several times, and compares the bytes allocated and the smallest CPU times; distinct = distinct (shape, size)",
		Assume:    []string{"eight times the content may cost up to 16 times the bytes and 16 times the CPU time, each with an allowance for constant costs", "CPU times are measured again before they are believed"},
		MinEvents: map[string]int{"readings": 700, "bytes_compared": 150, "cpu_compared": 60, "shapes": 150, "rows": 1000000},
		Case:      caseC29,
	})
}

// scaleShape makes a file with n of something.
type scaleShape struct {
	name string
	n    int // eight times as many are made as well
	make func(r *rand.Rand, n int) []byte
	ext  string
}

func numCell(row, col int, v float64) wb.Cell {
	return wb.Cell{Row: row, Col: col, Kind: wb.Num, Num: v}
}
func strCell(row, col int, s string) wb.Cell {
	return wb.Cell{Row: row, Col: col, Kind: wb.Str, Str: s}
}

func oneSheet(cells []wb.Cell) *wb.Workbook {
	return &wb.Workbook{Fmts: []wb.Fmt{{}}, Sheets: []wb.Sheet{{Name: "S", DimRows: -1, DimCols: -1, Cells: cells}}}
}

var bookShapes = []struct {
	name string
	n    int
	xls  bool // only
	xlsx bool // only
	make func(r *rand.Rand, n int) *wb.Workbook
}{
	{"rows", 8000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			for k := 0; k < 4; k++ {
				cs = append(cs, numCell(i, k, float64(r.IntN(1000))/8))
			}
		}
		return oneSheet(cs)
	}},
	{"columns", 1500, false, true, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 6; i++ {
			for k := 0; k < n; k++ {
				cs = append(cs, numCell(i, k, float64(r.IntN(1000))))
			}
		}
		return oneSheet(cs)
	}},
	{"columns", 30, true, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 300; i++ {
			for k := 0; k < n; k++ {
				cs = append(cs, numCell(i, k, float64(r.IntN(1000))))
			}
		}
		return oneSheet(cs)
	}},
	{"sparse rows", 8000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		return oneSheet([]wb.Cell{strCell(0, 0, "a"), strCell(n-1, 3, "b")})
	}},
	{"texts", 14000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			cs = append(cs, strCell(i/2, i%2, fmt.Sprintf("text %d é %d", i, r.IntN(1000))))
		}
		return oneSheet(cs)
	}},
	{"wide texts", 12000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			cs = append(cs, strCell(i/2, i%2, fmt.Sprintf("テキスト %d", i)))
		}
		return oneSheet(cs)
	}},
	{"same text", 16000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			cs = append(cs, strCell(i/2, i%2, "the same"))
		}
		return oneSheet(cs)
	}},
	{"inline texts", 4000, false, true, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			x := strCell(i/2, i%2, fmt.Sprintf("text & %d", i))
			x.Inline = true
			cs = append(cs, x)
		}
		return oneSheet(cs)
	}},
	{"long text", 4000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 20; i++ {
			cs = append(cs, strCell(i, 0, strings.Repeat("long ", n/5)+fmt.Sprint(i)))
		}
		return oneSheet(cs)
	}},
	{"long formula text", 4000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 20; i++ {
			cs = append(cs, wb.Cell{Row: i, Kind: wb.FStr, Str: strings.Repeat("lang-", n/5) + fmt.Sprint(i)})
		}
		return oneSheet(cs)
	}},
	{"runs", 400, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 20; i++ {
			x := strCell(i, 0, strings.Repeat("run ", n)+fmt.Sprint(i))
			x.Runs = n
			cs = append(cs, x)
		}
		return oneSheet(cs)
	}},
	{"formulas", 12000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			x := wb.Cell{Row: i / 2, Col: i % 2, Kind: wb.FNum, Num: float64(i) / 4}
			if i%2 == 0 {
				x.Kind, x.Str = wb.FStr, fmt.Sprint("result ", i)
			}
			cs = append(cs, x)
		}
		return oneSheet(cs)
	}},
	{"merged", 4000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		w := oneSheet(nil)
		s := &w.Sheets[0]
		for i := 0; i < n; i++ {
			s.Cells = append(s.Cells, strCell(2*i, 0, "m"))
			s.Merges = append(s.Merges, wb.Merge{R1: 2 * i, C1: 0, R2: 2*i + 1, C2: 3})
		}
		return w
	}},
	{"links", 6000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		w := oneSheet(nil)
		s := &w.Sheets[0]
		for i := 0; i < n; i++ {
			s.Cells = append(s.Cells, strCell(i, 0, "m"))
			s.Links = append(s.Links, wb.Link{R1: i, C1: 0, R2: i, C2: 0, Target: fmt.Sprintf("http://example.com/p/%d", i)})
		}
		return w
	}},
	{"formats", 450, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			x := numCell(i, 0, float64(i)+.5)
			x.Fmt = i + 1
			cs = append(cs, x)
		}
		w := oneSheet(cs)
		for i := 0; i < n; i++ {
			w.Fmts = append(w.Fmts, wb.Fmt{ID: 170 + i, Code: fmt.Sprintf("0.0\" u%d\"", i)})
		}
		return w
	}},
	{"long format", 500, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < 300; i++ {
			x := numCell(i, 0, float64(i)+.5)
			x.Fmt = 1
			cs = append(cs, x)
		}
		w := oneSheet(cs)
		w.Fmts = append(w.Fmts, wb.Fmt{ID: 170, Code: "0.0\"" + strings.Repeat("x", n) + "\""})
		return w
	}},
	{"dates", 8000, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		var cs []wb.Cell
		for i := 0; i < n; i++ {
			x := numCell(i, 0, 40000+float64(i)/7)
			x.Fmt = 1 + i%2
			cs = append(cs, x)
		}
		w := oneSheet(cs)
		w.Fmts = append(w.Fmts, wb.Fmt{ID: 14}, wb.Fmt{ID: 170, Code: "yyyy-mm-dd hh:mm:ss"})
		return w
	}},
	{"sheets", 150, false, false, func(r *rand.Rand, n int) *wb.Workbook {
		w := oneSheet(nil)
		w.Sheets = nil
		for i := 0; i < n; i++ {
			s := wb.Sheet{Name: fmt.Sprintf("Sheet %d", i), DimRows: -1, DimCols: -1}
			for k := 0; k < 20; k++ {
				s.Cells = append(s.Cells, strCell(k, 0, fmt.Sprint(i, " ", k)), numCell(k, 1, float64(k)))
			}
			w.Sheets = append(w.Sheets, s)
		}
		return w
	}},
	{"small sheets", 1000, false, true, func(r *rand.Rand, n int) *wb.Workbook {
		w := oneSheet(nil)
		w.Sheets = nil
		for i := 0; i < n; i++ {
			w.Sheets = append(w.Sheets, wb.Sheet{Name: fmt.Sprintf("Sheet %d", i), DimRows: -1, DimCols: -1, Cells: []wb.Cell{numCell(0, 0, float64(i))}})
		}
		return w
	}},
}

var scaleShapes []scaleShape

func init() {
	add := func(name, ext string, n int, f func(r *rand.Rand, n int) []byte) {
		scaleShapes = append(scaleShapes, scaleShape{name, n, f, ext})
	}
	for _, s := range bookShapes {
		s := s
		if !s.xlsx {
			add("XLS "+s.name, ".xls", s.n, func(r *rand.Rand, n int) []byte {
				b, _ := wb.BuildXLS(s.make(r, n), wb.XLSOpts{Rand: r}, wb.CFBOpts{Rand: r})
				return b
			})
		}
		if !s.xls {
			add("XLSX "+s.name, ".xlsx", s.n, func(r *rand.Rand, n int) []byte {
				b, _, _ := wb.BuildXLSX(s.make(r, n), wb.XLSXOpts{Rand: r})
				return b
			})
		}
	}
	rows := bookShapes[0].make
	xls := func(name string, n int, f func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int)) {
		add("XLS "+name, ".xls", n, func(r *rand.Rand, n int) []byte {
			o, co, k := f(r, n)
			o.Rand, co.Rand = r, r
			b, _ := wb.BuildXLS(rows(r, k), o, co)
			return b
		})
	}
	xls("encrypted", 4000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{Encrypt: true, Salt: randBytes(r, 16)}, wb.CFBOpts{}, n
	})
	xls("shuffled sectors", 4000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{}, wb.CFBOpts{Shuffle: true}, n
	})
	xls("version 4 sectors", 4000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{}, wb.CFBOpts{Shuffle: true, V4: true}, n
	})
	xls("cells in any order", 3000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{CellOrder: 1}, wb.CFBOpts{}, n
	})
	xls("styles", 480, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{XFPad: n}, wb.CFBOpts{}, 10
	})
	xls("unused texts", 30000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{ExtraSST: n}, wb.CFBOpts{}, 10
	})
	xls("unknown records", 30000, func(r *rand.Rand, n int) (wb.XLSOpts, wb.CFBOpts, int) {
		return wb.XLSOpts{Pre: manyRecs(r, n)}, wb.CFBOpts{}, 10
	})
	add("XLS streams", ".xls", 2000, func(r *rand.Rand, n int) []byte {
		recs, _ := wb.BuildXLSRecords(rows(r, 500), wb.XLSOpts{Rand: r})
		e := wb.XLSEntries(wb.JoinRecs(recs), r)
		for i := 0; i < n; i++ {
			e = append(e, wb.CFBEntry{Name: fmt.Sprint("Other ", i), Data: randBytes(r, 200)})
		}
		b, _ := wb.WriteCFB(e, wb.CFBOpts{Rand: r, Tree: true})
		return b
	})
	xlsx := func(name string, n int, f func(r *rand.Rand, n int) (wb.XLSXOpts, int)) {
		add("XLSX "+name, ".xlsx", n, func(r *rand.Rand, n int) []byte {
			o, k := f(r, n)
			o.Rand = r
			b, _, _ := wb.BuildXLSX(rows(r, k), o)
			return b
		})
	}
	xlsx("without references", 4000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) { return wb.XLSXOpts{NoRefs: 2}, n })
	xlsx("without dimension", 4000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) { return wb.XLSXOpts{Dim: 1}, n })
	xlsx("with the dimension A1", 4000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) { return wb.XLSXOpts{Dim: 2}, n })
	xlsx("pretty", 2000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) {
		return wb.XLSXOpts{Pretty: true, Comments: true, Extras: true}, n
	})
	xlsx("styles", 4000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) { return wb.XLSXOpts{StylePad: n}, 10 })
	xlsx("unused texts", 7000, func(r *rand.Rand, n int) (wb.XLSXOpts, int) { return wb.XLSXOpts{ExtraSST: n}, 10 })
	add("XLSX parts", ".xlsx", 2000, func(r *rand.Rand, n int) []byte {
		parts, _ := wb.XLSXParts(rows(r, 300), wb.XLSXOpts{Rand: r})
		for i := 0; i < n; i++ {
			parts = append(parts, wb.Part{Name: fmt.Sprintf("xl/media/image%d.png", i), Data: randBytes(r, 40)})
		}
		return wb.ZipParts(parts, wb.XLSXOpts{Rand: r})
	})
	table := func(ext, sep string, quoted bool) func(nr, nc, nl int) []byte {
		return func(nr, nc, nl int) []byte {
			var b bytes.Buffer
			for i := 0; i < nr; i++ {
				for k := 0; k < nc; k++ {
					if k > 0 {
						b.WriteString(sep)
					}
					f := fmt.Sprintf("field %d", i+k) + strings.Repeat("x", nl)
					if quoted && k%2 == 0 {
						f = `"` + f + `, ""q"""`
					}
					b.WriteString(f)
				}
				b.WriteString("\n")
			}
			return b.Bytes()
		}
	}
	for _, t := range []struct {
		name, ext string
		f         func(nr, nc, nl int) []byte
	}{{"TSV", ".tsv", table(".tsv", "\t", false)}, {"CSV", ".csv", table(".csv", ",", false)}, {"quoted CSV", ".csv", table(".csv", ",", true)}} {
		t := t
		add(t.name+" rows", t.ext, 8000, func(r *rand.Rand, n int) []byte { return t.f(n, 5, 0) })
		add(t.name+" columns", t.ext, 1500, func(r *rand.Rand, n int) []byte { return t.f(20, n, 0) })
		add(t.name+" long fields", t.ext, 40000, func(r *rand.Rand, n int) []byte { return t.f(12, 3, n) })
	}
}

func cpuNow() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// costOf reads the file completely.
func costOf(c *mon.Ctx, p string) (cpu float64, bytes uint64, rows int) {
	runtime.GC()
	c.Count("readings", 1)
	a0, t0 := allocated(), cpuNow()
	src, err := grate.Open(p)
	if err != nil {
		c.Fatal("open", "a well-formed file does not open: %v", err)
	}
	names, err := src.List()
	if err != nil {
		c.Fatal("list", "List: %v", err)
	}
	for _, n := range names {
		col := mustGet(c, src, n)
		col.IsEmpty()
		for col.Next() {
			s, t := col.Strings(), col.Types()
			col.Formats()
			if len(s) > 0 && t[0] == "string" {
				args := make([]interface{}, len(s))
				for i := range args {
					args[i] = new(string)
				}
				col.Scan(args...)
			}
			rows++
		}
		if err := col.Err(); err != nil {
			c.Fatal("err", "Err: %v", err)
		}
	}
	src.Close()
	return cpuNow() - t0, allocated() - a0, rows
}

func caseC29(c *mon.Ctx) {
	r := c.Rand
	s := scaleShapes[c.Index%len(scaleShapes)]
	n := s.n
	if c.Index >= len(scaleShapes) {
		n = s.n/2 + r.IntN(s.n/2+1)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(200))
	seed := r.Uint64()
	file := func(n int) (string, int) {
		b := s.make(rand.New(rand.NewPCG(seed, 7)), n)
		return c.File(s.ext, b), len(b)
	}
	p1, size1 := file(n)
	p8, size8 := file(8 * n)
	c.Note("%s, %d and %d", s.name, n, 8*n)
	c.Key(s.name, n)
	c.Count("shapes", 1)
	measure := func(p string, times int) (cpu float64, bytes uint64) {
		for i := 0; i < times; i++ {
			t, a, rows := costOf(c, p)
			c.Count("rows", rows)
			if i == 0 || t < cpu {
				cpu = t
			}
			if i == 0 || a < bytes {
				bytes = a
			}
		}
		return
	}
	t1, a1 := measure(p1, 3)
	t8, a8 := measure(p8, 2)
	c.Count("bytes_compared", 1)
	if show := os.Getenv("VERIF_SHOW"); show != "" {
		f, _ := os.OpenFile(show, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		defer f.Close()
		fmt.Fprintf(f, "%-30s n %6d  size %8d %9d  cpu %7.1f %7.1f ms x%5.1f  bytes %9d %10d x%5.1f\n", s.name, n, size1, size8, t1*1e3, t8*1e3, t8/t1, a1, a8, float64(a8)/float64(a1))
	}
	if a8 > 16*a1+1<<20 {
		c.Fatal("bytes", "%s: reading %d allocates %d bytes, reading %d allocates %d (%.0f times as many)", s.name, n, a1, 8*n, a8, float64(a8)/float64(a1))
	}
	bad := func() bool { return t8 > 16*t1+0.1 }
	if t8 > 0.02 {
		c.Count("cpu_compared", 1)
	}
	for i := 0; i < 4 && bad(); i++ {
		c.Count("measured_again", 1)
		if t, _ := measure(p1, 2); t > t1 { // the smaller file may have been lucky, not the other one
			t1 = t
		}
		if t, _ := measure(p8, 3); t < t8 {
			t8 = t
		}
	}
	if bad() {
		c.Fatal("cpu", "%s: reading %d takes %.1f ms of CPU time, reading %d takes %.1f ms (%.0f times as long)", s.name, n, t1*1e3, 8*n, t8*1e3, t8/t1)
	}
}
