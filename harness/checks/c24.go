package checks

import (
	"bytes"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C24", Quick: 30000, Thorough: 1500000, CPUSec: 120,
		Rule:      "each case makes one file (all formats, half of them damaged: cut, flipped, records or parts changed, hostile field values, soups of format codes) and reads all of it three times, with logging off, with grate.Debug on and with it off again; the three readings (errors, sheets, hidden sheets, rows, types, formats, scans, ends) must be the same, a reading must not panic, and nothing may go to the standard output; the log lines are counted; distinct = distinct (kind of file, log lines seen)",
		Assume:    []string{"files that give different results with logging off are left out"},
		MinEvents: map[string]int{"files": 4000, "damaged": 1500, "open_errors": 500, "log_lines": 20000, "kinds_of_lines": 2000, "rows": 20000},
		Case:      caseC24,
	})
}

// lineCounter counts the lines of a log, and keeps the kinds of them.
type lineCounter struct {
	lines int
	kinds map[string]bool
	bytes int
}

func (l *lineCounter) Write(b []byte) (int, error) {
	l.lines += bytes.Count(b, []byte{'\n'})
	l.bytes += len(b)
	if len(b) > 20 {
		b = b[20:] // the time
	}
	k := string(b[:min(len(b), 24)])
	k = strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return -1
		}
		return c
	}, k)
	if len(l.kinds) < 500 {
		l.kinds[k] = true
	}
	return len(b), nil
}

func caseC24(c *mon.Ctx) {
	r := c.Rand
	damaged := r.IntN(2) == 0
	var b []byte
	var ext, kind string
	if r.IntN(5) == 0 { // strange formats
		w := soupBook(r)
		if kind = "soup xls"; r.IntN(2) == 0 {
			b, _ = wb.BuildXLS(w, randXLSOpts(r), randCFBOpts(r))
			ext = ".xls"
		} else {
			kind = "soup xlsx"
			b, _, _ = wb.BuildXLSX(w, wb.RandXLSXOpts(r))
			ext = ".xlsx"
		}
		if damaged {
			b = mutateRaw(r, b)
		}
	} else {
		b, ext, kind, _ = anyFile(r, wb.Pick(r, 4, 20, 60), damaged)
	}
	p := c.File(ext, b)
	c.Artifact("file"+ext, b)
	c.Note("%s", kind)
	c.Count("files", 1)
	if damaged {
		c.Count("damaged", 1)
	}
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	defer func() { grate.Debug = false }()
	grate.Debug = false
	read := func(what string) *solo {
		var s *solo
		func() {
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					c.Fatal("panic", "%s: panic: %v\n%s", what, p, st[:min(len(st), 2000)])
				}
			}()
			s = readSolo(p, func() {})
		}()
		return s
	}
	a := read("quiet")
	lc := &lineCounter{kinds: map[string]bool{}}
	log.SetOutput(lc)
	grate.Debug = true
	stdout, old := capture(c)
	d := read("logging")
	os.Stdout = old
	grate.Debug = false
	printed := stdout()
	log.SetOutput(io.Discard)
	a2 := read("quiet again")
	c.Count("log_lines", lc.lines)
	c.Count("kinds_of_lines", len(lc.kinds))
	if a.Err != "" {
		c.Count("open_errors", 1)
	}
	for _, s := range a.Sheets {
		c.Count("rows", len(s.Rows))
	}
	c.Key(kind, len(b), lc.kinds, lc.lines, a.Err)
	norm(a)
	norm(a2)
	norm(d)
	if x := diffSolo(a, a2); x != "" {
		if y := diffSolo(a2, readAgain(p)); y == "" {
			c.Fatal("after", "%s, after it was read with logging: %s", kind, x)
		}
		c.Count("unstable", 1)
		return
	}
	if x := diffSolo(a, d); x != "" {
		c.Fatal("logging", "%s: quiet (\"alone\") and with logging (\"now\") differ: %s", kind, x)
	}
	if a.Err != d.Err {
		c.Fatal("error", "%s: the error is %q, with logging %q", kind, a.Err, d.Err)
	}
	if printed != "" {
		c.Fatal("stdout", "%s: with logging the library prints %q", kind, printed[:min(200, len(printed))])
	}
	runtime.KeepAlive(b)
}

func readAgain(p string) *solo {
	s := readSolo(p, func() {})
	norm(s)
	return s
}

// norm does what the round trip of diffSolo expects.
func norm(s *solo) {
	for _, sh := range s.Sheets {
		for i := range sh.Rows {
			sh.Rows[i] = valid8(sh.Rows[i])
		}
	}
	for i := range s.List {
		s.List[i] = valid8(s.List[i])
	}
}

// capture redirects what is printed to os.Stdout.
func capture(c *mon.Ctx) (get func() string, old *os.File) {
	f, err := os.Create(c.Dir + "/stdout.txt")
	c.Must(err)
	old = os.Stdout
	os.Stdout = f
	return func() string {
		f.Close()
		b, err := os.ReadFile(c.Dir + "/stdout.txt")
		c.Must(err)
		return string(b)
	}, old
}
