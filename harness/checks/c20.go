package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/simple"
	"github.com/pbnjay/grate/xls"
	"github.com/pbnjay/grate/xls/cfb"
	"github.com/pbnjay/grate/xlsx"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C20", Quick: 24000, Thorough: 600000,
		Rule:      "each case turns garbage collection off, makes valid, damaged and unknown files of all formats, and runs a random history of opening (with the dispatcher, each reader, the compound file reader; also missing files, directories, files below a file, dangling links, and with no file descriptors left), listing, getting, partial reading, closing once to three times, and further use after that, sometimes after the file has been cut or removed underneath; the descriptors of the process (/proc/self/fd) that belong to each file and the number of goroutines are taken after every operation, and collections obtained before and after a close are compared with the complete reading; distinct = distinct (kinds, history)",
		Assume:    []string{"descriptors are observed by the names they have under /proc/self/fd", "memory is not counted as being left open"},
		MinEvents: map[string]int{"failed_opens": 300000, "opens": 100000, "closes": 70000, "double_closes": 50000, "uses_after_close": 80000, "censuses": 400000, "emfile": 30000, "pulled": 10000, "rows_after_close": 25000},
		Case:      caseC20,
	})
}

// fdsOf counts the descriptors open on each file below the directory.
func fdsOf(dir string) (all int, per map[string]int) {
	per = map[string]int{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1, per
	}
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the one ReadDir used
		}
		all++
		t = strings.TrimSuffix(t, " (deleted)")
		if strings.HasPrefix(t, dir) {
			per[t]++
		}
	}
	return all, per
}

// settle waits until there are at most n goroutines.
func settle(n int) int {
	for i := 0; i < 3000; i++ {
		if k := runtime.NumGoroutine(); k <= n {
			return k
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return runtime.NumGoroutine()
}

func stacks() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, true)])
}

type c20live struct {
	k    int
	src  grate.Source
	cols []*liveCol
}

func caseC20(c *mon.Ctx) {
	r := c.Rand
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir, err := filepath.EvalSymlinks(c.Dir)
	c.Must(err)
	type file struct {
		path, kind string
		alone      *solo
		pulled     bool
		closer     func()
	}
	var files []*file
	kinds := ""
	for i, n := 0, 2+r.IntN(4); i < n; i++ {
		b, ext, kind, good := anyFile(r, wb.Pick(r, 4, 12, 30), r.IntN(2) == 0)
		p := filepath.Join(dir, fmt.Sprintf("f%d%s", i, ext))
		c.Must(os.WriteFile(p, b, 0o644))
		c.Artifact(fmt.Sprintf("f%d%s", i, ext), b)
		f := &file{path: p, kind: kind}
		if good {
			f.alone = readSolo(p, func() {})
			if f.alone.Err != "" {
				c.Fatal("solo", "a valid %s file cannot be read: %s", kind, f.alone.Err)
			}
		}
		files = append(files, f)
		kinds += kind + ","
	}
	// what is not a file that can be read
	var odd []string
	os.Mkdir(filepath.Join(dir, "d.xls"), 0o755)
	os.Symlink(filepath.Join(dir, "nothing"), filepath.Join(dir, "l.xlsx"))
	os.Symlink(filepath.Join(dir, "loop"), filepath.Join(dir, "loop"))
	os.WriteFile(filepath.Join(dir, "empty.csv"), nil, 0o644)
	odd = append(odd, dir+"/d.xls", dir+"/l.xlsx", dir+"/loop", dir+"/missing.tsv", files[0].path+"/x", dir+"/a\x00b", "", dir+"/empty.csv", dir+"/"+strings.Repeat("n", 300), "/dev/null")

	readSolo(files[0].path, func() {}) // whatever is set up once
	base := runtime.NumGoroutine()
	all0, per0 := fdsOf(dir)
	if all0 < 0 {
		c.Fatal("harness", "no /proc/self/fd")
	}
	if len(per0) > 0 {
		c.Fatal("fd", "files are still open after reading and closing them alone: %v", per0)
	}
	var live []*c20live
	var closed []*c20live
	var trace []string
	say := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fail := func(sig, f string, a ...interface{}) {
		c.Artifact("history.txt", []byte(strings.Join(trace, "\n")))
		n := max(0, len(trace)-12)
		c.Fatal(sig, "%s\nlast operations: %s", fmt.Sprintf(f, a...), strings.Join(trace[n:], "; "))
	}
	openers := []struct {
		name string
		op   func(string) (grate.Source, error)
	}{{"grate", grate.Open}, {"grate", grate.Open}, {"xls", xls.Open}, {"xlsx", xlsx.Open}, {"csv", simple.OpenCSV}, {"tsv", simple.OpenTSV},
		{"cfb", func(f string) (grate.Source, error) {
			d, err := cfb.Open(f)
			if err != nil {
				return nil, err
			}
			names, _ := d.List()
			for _, n := range names {
				d.Open(n)
			}
			if x, ok := interface{}(d).(interface{ Close() error }); ok {
				x.Close()
			}
			return nil, nil
		}}}
	census := func(what, path string, want int) {
		c.Count("censuses", 1)
		if _, per := fdsOf(dir); per[path] > want {
			fail("fd", "%s %s leaves %d descriptors open, %d before", what, filepath.Base(path), per[path], want)
		}
	}
	open := func() {
		k := r.IntN(len(files))
		p := files[k].path
		other := r.IntN(6) == 0
		if other {
			p = odd[r.IntN(len(odd))]
		}
		o := openers[r.IntN(len(openers))]
		_, per := fdsOf(dir)
		all, _ := fdsOf(dir)
		ng := runtime.NumGoroutine()
		emfile := r.IntN(12) == 0
		var old syscall.Rlimit
		if emfile {
			syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
			low := old
			low.Cur = uint64(all + wb.Pick(r, 0, 0, 1, 2)) // the directory reading has closed its own
			if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low) != nil {
				emfile = false
			}
		}
		src, err := o.op(p)
		if emfile {
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
			c.Count("emfile", 1)
		}
		say("%s.Open %s (%s)=%v", o.name, filepath.Base(p), files[k].kind, err)
		if err != nil || o.name == "cfb" {
			c.Count("failed_opens", 1)
			census("a failed "+o.name+".Open of", p, per[p])
			if a, _ := fdsOf(dir); a > all {
				fail("fd", "a failed %s.Open of %s leaves %d descriptors open, %d before", o.name, filepath.Base(p), a, all)
			}
			if n := settle(ng); n > ng {
				fail("goroutine", "a failed %s.Open of %s leaves %d goroutines, %d before\n%s", o.name, filepath.Base(p), n, ng, stacks())
			}
			return
		}
		if src == nil {
			fail("nil", "%s.Open gives no source and no error", o.name)
		}
		c.Count("opens", 1)
		if other {
			k = -1
		}
		if o.name != "grate" && k >= 0 && files[k].kind != "" && !strings.Contains(files[k].kind, o.name) {
			k = -1 // with another reader
		}
		if other || k < 0 {
			// only closed
			for i, n := 0, 1+r.IntN(2); i < n; i++ {
				src.Close()
			}
			census("closing", p, per[p])
			return
		}
		live = append(live, &c20live{k: k, src: src})
	}
	onPath := func(k int) (n int) {
		for _, l := range live {
			if l.k == k {
				n++
			}
		}
		return
	}
	// use calls everything; the outcome must be an error or what the file holds.
	use := func(l *c20live, after bool) {
		f := files[l.k]
		name := "Sheet1"
		if f.alone != nil && len(f.alone.List) > 0 {
			name = f.alone.List[r.IntN(len(f.alone.List))]
		} else if !after {
			if ns, _ := l.src.List(); len(ns) > 0 {
				name = ns[r.IntN(len(ns))]
			}
		}
		exact := f.alone != nil && !f.pulled
		switch r.IntN(6) {
		case 0:
			names, err := allNames(l.src)
			say("List(after=%v)=%d,%v", after, len(names), err)
			if exact && err == nil && fmt.Sprint(names) != fmt.Sprint(f.alone.List) && !(after && len(names) == 0) {
				fail("list", "%s: the sheets are %q, with after=%v %q", f.kind, f.alone.List, after, names)
			}
		case 1:
			got := readSheet(l.src, name, func() {})
			say("read %s(after=%v)=%s,%d rows", q(name), after, got.Err, len(got.Rows))
			if exact && got.Err == "" {
				if d := diffFresh(f.alone.Sheets[name], got); d != "" {
					fail("sheet", "%s sheet %s, closed=%v: %s", f.kind, q(name), after, d)
				}
				if after {
					c.Count("rows_after_close", len(got.Rows))
				}
			}
			if exact && !after && got.Err != "" && f.alone.Sheets[name].Err == "" {
				fail("sheet", "%s sheet %s: %s", f.kind, q(name), got.Err)
			}
		case 2:
			col, err := l.src.Get(name)
			say("Get %s(after=%v)=%v", q(name), after, err)
			if err == nil {
				if col == nil {
					fail("nil", "Get gives no collection and no error")
				}
				l.cols = append(l.cols, &liveCol{name: name, col: col})
			}
		default:
			if len(l.cols) == 0 {
				l.src.Get(name)
				return
			}
			lc := l.cols[r.IntN(len(l.cols))]
			for i, n := 0, 1+r.IntN(8); i < n && lc.next < soloRows; i++ {
				if !lc.col.Next() {
					if exact && lc.next < len(f.alone.Sheets[lc.name].Rows) && lc.col.Err() == nil {
						fail("rows", "%s sheet %s, closed=%v: the rows end after %d of %d, without an error", f.kind, q(lc.name), after, lc.next, len(f.alone.Sheets[lc.name].Rows))
					}
					break
				}
				got := rowText(readRow(lc.col))
				lc.col.IsEmpty()
				if after {
					c.Count("rows_after_close", 1)
				}
				if exact && lc.next < len(f.alone.Sheets[lc.name].Rows) {
					if w := f.alone.Sheets[lc.name].Rows[lc.next]; w != got && lc.col.Err() == nil {
						fail("rows", "%s sheet %s row %d, closed=%v: %s, not %s", f.kind, q(lc.name), lc.next, after, q(got), q(w))
					}
				}
				lc.next++
			}
		}
	}
	closeIt := func(i int) {
		l := live[i]
		live = append(live[:i], live[i+1:]...)
		n := 1 + r.IntN(3)/2
		if r.IntN(8) == 0 {
			n = 3
		}
		for k := 0; k < n; k++ {
			err := l.src.Close()
			say("Close f%d=%v", l.k, err)
			if k == 0 {
				c.Count("closes", 1)
				if err != nil && !files[l.k].pulled {
					fail("close", "Close of %s: %v", files[l.k].kind, err)
				}
			} else {
				c.Count("double_closes", 1)
			}
		}
		if onPath(l.k) == 0 {
			census("closing", files[l.k].path, 0)
		}
		closed = append(closed, l)
	}
	ops := 20 + r.IntN(60)
	for i := 0; i < ops; i++ {
		switch op := r.IntN(12); {
		case op < 4 || len(live) == 0 && op < 9:
			if len(live) < 8 {
				open()
			}
		case op < 7 && len(live) > 0:
			use(live[r.IntN(len(live))], false)
		case op < 9 && len(live) > 0:
			closeIt(r.IntN(len(live)))
		case len(closed) > 0 && op < 11:
			c.Count("uses_after_close", 1)
			l := closed[r.IntN(len(closed))]
			use(l, true)
			if r.IntN(5) == 0 {
				l.src.Close()
				c.Count("double_closes", 1)
			}
			if onPath(l.k) == 0 {
				census("using and closing the closed", files[l.k].path, 0)
			}
		case op == 11 && r.IntN(4) == 0:
			// the file is pulled from underneath
			k := r.IntN(len(files))
			f := files[k]
			switch r.IntN(3) {
			case 0:
				os.Truncate(f.path, 0)
			case 1:
				if fi, err := os.Stat(f.path); err == nil && fi.Size() > 0 {
					os.Truncate(f.path, r.Int64N(fi.Size()))
				}
			case 2:
				os.Remove(f.path)
			}
			say("pull f%d", k)
			f.pulled = true
			c.Count("pulled", 1)
		}
	}
	for len(live) > 0 {
		closeIt(len(live) - 1)
	}
	if all, per := fdsOf(dir); all > all0 {
		fail("fd", "%d descriptors are open after everything is closed, %d before: %v", all, all0, per)
	}
	if n := settle(base); n > base {
		fail("goroutine", "%d goroutines are left after everything is closed, %d before\n%s", n, base, stacks())
	}
	c.Note("%s %d operations, last: %s", kinds, len(trace), strings.Join(trace[max(0, len(trace)-4):], "; "))
	c.Key(kinds, strings.Join(trace, ";"))
	_ = mon.CPU
}

// diffFresh is diffSheet between readings of this process.
func diffFresh(a, b *soloSheet) string {
	if a == nil {
		return "no such sheet"
	}
	if b.EndErr != "" {
		return ""
	}
	if len(a.Rows) != len(b.Rows) {
		return fmt.Sprintf("%d rows, not %d", len(b.Rows), len(a.Rows))
	}
	for i := range a.Rows {
		if a.Rows[i] != b.Rows[i] {
			return fmt.Sprintf("row %d is %s, not %s", i, q(b.Rows[i]), q(a.Rows[i]))
		}
	}
	return ""
}
