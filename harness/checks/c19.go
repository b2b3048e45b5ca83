package checks

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C19", Quick: 3000, Thorough: 24000, Race: true, MaxProcs: 4, Workers: 6, CPUSec: 240, AllocMB: 4096,
		Rule:      "each case makes 3 to 9 files of all formats (plain and encrypted XLS, XLSX, CSV, TSV, damaged ones, unknown ones) and records what each returns alone, in a process of its own. Half of the cases then open, read and close them from 2 to 12 goroutines, one source each, with yields, sleeps and garbage collections injected between the calls, under the race detector; the other half run a random history of open, list, get, partial reads, failing opens, single and double closes over several sources in one goroutine. Every result is compared with the one recorded alone; distinct = distinct (kinds of files, order of the operations observed)",
		Assume:    []string{"the race detector sees the accesses of the schedules that ran", "error messages themselves are not compared, only that there is an error"},
		MinEvents: map[string]int{"parallel_reads": 10000, "parallel_opens_failed": 2000, "overlaps": 7000, "schedules": 1000, "seq_opens": 8000, "seq_failed_opens": 2000, "seq_closes": 5000, "seq_double_closes": 1500, "seq_rows": 20000, "seq_gets": 10000, "gcs": 1000},
		Case:      caseC19,
	})
}

type soloFile struct {
	path, kind string
	alone      *solo
}

func caseC19(c *mon.Ctx) {
	r := c.Rand
	var files []soloFile
	kinds := ""
	n := 3 + r.IntN(5)
	for i := 0; i < n; i++ {
		bad := i > 1 && r.IntN(3) == 0
		cells := wb.Pick(r, 6, 20, 60, 200)
		b, ext, kind, good := anyFile(r, cells, bad)
		p := c.File(ext, b)
		c.Artifact(fmt.Sprintf("%d%s", i, ext), b)
		f := soloFile{path: p, kind: kind, alone: runSolo(c, p)}
		if good && f.alone.Err != "" {
			c.Fatal("solo", "a valid %s file cannot be read: %s", kind, f.alone.Err)
		}
		if !good {
			// a damaged file need not give the same every time
			if diffSolo(f.alone, runSolo(c, p)) != "" {
				c.Count("unstable", 1)
				continue
			}
		}
		files = append(files, f)
		kinds += kind + ","
	}
	files = append(files, soloFile{c.Dir + "/missing.xls", "missing", &solo{Err: "missing"}})
	c.Note("%s parallel=%v", kinds, c.Index%2 == 0)
	if c.Index%2 == 0 {
		parallel(c, files, kinds)
	} else {
		sequential(c, files, kinds)
	}
}

func parallel(c *mon.Ctx, files []soloFile, kinds string) {
	r := c.Rand
	ng := 2 + r.IntN(11)
	iters := 1 + r.IntN(4)
	var wg sync.WaitGroup
	var active, overlaps, reads, failed, gcs atomic.Int64
	start := make(chan struct{})
	var mu sync.Mutex
	var order []byte
	type badResult struct{ sig, msg string }
	var bad []badResult
	for g := 0; g < ng; g++ {
		seed1, seed2 := r.Uint64(), r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			pr := rand.New(rand.NewPCG(seed1, seed2))
			tempo := pr.IntN(4)
			yield := func() {
				switch pr.IntN(40) {
				case 0:
					if tempo > 0 {
						time.Sleep(time.Duration(pr.IntN(200)) * time.Microsecond)
					}
				case 1:
					if tempo > 2 && pr.IntN(8) == 0 {
						runtime.GC() // empties the pools
						gcs.Add(1)
					}
				case 2, 3, 4, 5, 6, 7:
					if tempo > 1 {
						runtime.Gosched()
					}
				}
			}
			<-start
			site, msg := mon.Guard(func() {
				for i := 0; i < iters; i++ {
					k := pr.IntN(len(files))
					f := files[k]
					if active.Add(1) > 1 {
						overlaps.Add(1)
					}
					mu.Lock()
					if len(order) < 4000 {
						order = append(order, byte(k), byte(g))
					}
					mu.Unlock()
					got := readSolo(f.path, yield)
					active.Add(-1)
					reads.Add(1)
					if got.Err != "" {
						failed.Add(1)
					}
					if d := diffSolo(f.alone, got); d != "" {
						mu.Lock()
						bad = append(bad, badResult{"parallel", fmt.Sprintf("file %d (%s): %s", k, f.kind, d)})
						mu.Unlock()
						return
					}
				}
			})
			if site != "" {
				mu.Lock()
				bad = append(bad, badResult{site, msg})
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("parallel_reads", int(reads.Load()))
	c.Count("parallel_opens_failed", int(failed.Load()))
	c.Count("overlaps", int(overlaps.Load()))
	c.Count("gcs", int(gcs.Load()))
	c.Count("schedules", 1)
	h := fnv.New64a()
	h.Write(order)
	c.Key(kinds, ng, iters, h.Sum64())
	for _, b := range bad {
		c.Bad(b.sig, "%s", b.msg)
	}
}

type liveSource struct {
	f    int
	src  grate.Source
	cols []*liveCol
}

type liveCol struct {
	name string
	col  grate.Collection
	next int
}

func sequential(c *mon.Ctx, files []soloFile, kinds string) {
	r := c.Rand
	var live []*liveSource
	var closed []grate.Source
	var trace []byte
	bad := func(sig, f string, a ...interface{}) {
		c.Fatal(sig, "after %d operations with %d sources open: %s", len(trace), len(live), fmt.Sprintf(f, a...))
	}
	defer func() {
		for _, l := range live {
			l.src.Close()
		}
	}()
	ops := 30 + r.IntN(150)
	for i := 0; i < ops; i++ {
		op := r.IntN(20)
		if len(live) == 0 && op > 5 {
			op = 0
		}
		trace = append(trace, byte(op))
		var l *liveSource
		li := 0
		if len(live) > 0 {
			li = r.IntN(len(live))
			l = live[li]
		}
		switch {
		case op < 4: // open
			k := r.IntN(len(files))
			if len(live) > 7 && files[k].alone.Err == "" {
				continue
			}
			src, err := grate.Open(files[k].path)
			c.Count("seq_opens", 1)
			if (err != nil) != (files[k].alone.Err != "") {
				bad("open", "file %d (%s): Open alone: %q, now: %v", k, files[k].kind, files[k].alone.Err, err)
			}
			if err != nil {
				c.Count("seq_failed_opens", 1)
				continue
			}
			live = append(live, &liveSource{f: k, src: src})
		case op == 4: // close one again
			if len(closed) > 0 {
				closed[r.IntN(len(closed))].Close()
				c.Count("seq_double_closes", 1)
			}
		case op == 5:
			if r.IntN(3) == 0 {
				runtime.GC()
				c.Count("gcs", 1)
			}
		case op < 8: // close
			l.src.Close()
			c.Count("seq_closes", 1)
			if r.IntN(3) == 0 {
				l.src.Close()
				c.Count("seq_double_closes", 1)
			}
			closed = append(closed, l.src)
			live = append(live[:li], live[li+1:]...)
		case op == 8: // list
			names, err := allNames(l.src)
			if err != nil || valid8(fmt.Sprintf("%q", names)) != fmt.Sprintf("%q", files[l.f].alone.List) {
				bad("list", "file %d (%s): sheets alone %q, now %q %v", l.f, files[l.f].kind, files[l.f].alone.List, names, err)
			}
		case op < 11: // read a whole sheet
			names := files[l.f].alone.List
			if len(names) == 0 {
				continue
			}
			n := names[r.IntN(len(names))]
			c.Count("seq_gets", 1)
			if d := diffSheet(files[l.f].alone.Sheets[n], readSheet(l.src, n, func() {})); d != "" {
				bad("sheet", "file %d (%s) sheet %s: %s", l.f, files[l.f].kind, q(n), d)
			}
		case op < 14 || len(l.cols) == 0: // start reading a sheet
			names := files[l.f].alone.List
			if len(names) == 0 {
				continue
			}
			n := names[r.IntN(len(names))]
			col, err := l.src.Get(n)
			c.Count("seq_gets", 1)
			want := files[l.f].alone.Sheets[n]
			if (err != nil) != (want.Err != "") {
				bad("get", "file %d (%s) sheet %s: Get alone %q, now %v", l.f, files[l.f].kind, q(n), want.Err, err)
			}
			if err == nil {
				l.cols = append(l.cols, &liveCol{name: n, col: col})
			}
		default: // read some rows of one that was started
			lc := l.cols[r.IntN(len(l.cols))]
			want := files[l.f].alone.Sheets[lc.name]
			for k, n := 0, 1+r.IntN(6); k < n && lc.next < soloRows; k++ {
				got := "no row"
				if lc.col.Next() {
					got = valid8(rowText(readRow(lc.col)))
				}
				exp := "no row"
				if lc.next < len(want.Rows) {
					exp = want.Rows[lc.next]
				}
				c.Count("seq_rows", 1)
				if got != exp {
					bad("row", "file %d (%s) sheet %s row %d alone: %s, now: %s", l.f, files[l.f].kind, q(lc.name), lc.next, q(exp), q(got))
				}
				if exp == "no row" {
					if err := lc.col.Err(); (err != nil) != (want.EndErr != "") {
						bad("err", "file %d sheet %s: Err alone %q, now %v", l.f, q(lc.name), want.EndErr, err)
					}
					break
				}
				lc.next++
			}
		}
	}
	c.Key(kinds, string(trace))
	c.Count("histories", 1)
}
