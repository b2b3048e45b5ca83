package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type msg struct {
	T     string         `json:"t"` // s start, v violation, e harness error, d done
	I     int            `json:"i"`
	Sig   string         `json:"sig,omitempty"`
	Msg   string         `json:"msg,omitempty"`
	Files []string       `json:"files,omitempty"`
	N     int            `json:"n,omitempty"`
	Keys  []uint64       `json:"k,omitempty"`
	Cnt   map[string]int `json:"c,omitempty"`
	Notes []string       `json:"notes,omitempty"`
}

// CPU is the CPU time this process has used.
func CPU() time.Duration { return cpuNow() }

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Worker runs the cases first, first+step, ... below total.
func Worker(ck *Check, seed uint64, tier, work string, first, step, total int) int {
	if os.Getenv("VGRATE_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	if ck.MaxProcs > 0 {
		runtime.GOMAXPROCS(ck.MaxProcs)
	} else {
		runtime.GOMAXPROCS(2)
	}
	if !ck.Race {
		lim := uint64(6 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetTraceback("all")
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	var mu sync.Mutex
	enc := json.NewEncoder(out)
	emit := func(m msg, flush bool) {
		mu.Lock()
		enc.Encode(m)
		if flush {
			out.Flush()
		}
		mu.Unlock()
	}
	dir, err := os.MkdirTemp(work, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)

	// watchdog over CPU time and live heap
	var cur atomic.Int64
	var startCPU atomic.Int64
	var startAlloc atomic.Uint64
	sample := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	allocs := func() uint64 { metrics.Read(sample); return sample[0].Value.Uint64() }
	cur.Store(-1)
	go func() {
		s2 := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			i := cur.Load()
			if i < 0 {
				continue
			}
			if cpuNow()-time.Duration(startCPU.Load()) > time.Duration(ck.CPUSec)*time.Second && cur.Load() == i {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit(msg{T: "v", I: int(i), Sig: "hang:" + panicSite(string(buf)), Msg: fmt.Sprintf("case used more than %d CPU seconds\n%s", ck.CPUSec, clip(string(buf), 3000))}, true)
				os.Exit(8)
			}
			metrics.Read(s2)
			if s2[0].Value.Uint64() > ck.AllocMB<<20 && cur.Load() == i {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit(msg{T: "v", I: int(i), Sig: "memory:" + panicSite(string(buf)), Msg: fmt.Sprintf("case holds more than %d MB of heap\n%s", ck.AllocMB, clip(string(buf), 3000))}, true)
				os.Exit(8)
			}
		}
	}()
	_ = allocs
	_ = startAlloc.Load

	agg := msg{T: "d", Cnt: map[string]int{}}
	nviol := 0
	deadline := time.Now().Add(time.Hour)
	if t, err := strconv.ParseInt(os.Getenv("VGRATE_DEADLINE"), 10, 64); err == nil {
		deadline = time.Unix(t, 0)
	}
	for i := first; i < total; i += step {
		if time.Now().After(deadline) {
			agg.Cnt["stopped_at_time_limit"]++
			break
		}
		c := &Ctx{ID: ck.ID, Index: i, Total: total, Seed: seed, Tier: tier, Rand: seedFor(seed, ck.ID, i), Work: work, counts: map[string]int{}}
		c.Dir = filepath.Join(dir, strconv.Itoa(i))
		os.Mkdir(c.Dir, 0o755)
		emit(msg{T: "s", I: i}, true)
		startCPU.Store(int64(cpuNow()))
		cur.Store(int64(i))
		herr := runCase(ck, c)
		cur.Store(-1)
		if herr != "" {
			emit(msg{T: "e", I: i, Msg: herr}, true)
		}
		agg.N++
		if len(c.viol) > 0 {
			nviol++
			rd := filepath.Join(work, fmt.Sprintf("viol-%d", i))
			var files []string
			if len(c.artifacts) > 0 {
				os.MkdirAll(rd, 0o755)
				for n, b := range c.artifacts {
					p := filepath.Join(rd, n)
					if os.WriteFile(p, b, 0o644) == nil {
						files = append(files, p)
					}
				}
				sort.Strings(files)
			}
			for _, v := range c.viol {
				emit(msg{T: "v", I: i, Sig: v.Sig, Msg: v.Msg, Files: files}, true)
			}
		}
		if !c.trivial {
			if len(c.keys) == 0 {
				c.Key(i)
			}
			agg.Keys = append(agg.Keys, c.keys...)
		}
		for k, v := range c.counts {
			agg.Cnt[k] += v
		}
		if c.note != "" && len(agg.Notes) < 2 {
			agg.Notes = append(agg.Notes, fmt.Sprintf("case %d: %s", i, c.note))
		}
		os.RemoveAll(c.Dir)
		if agg.N%200 == 0 {
			emit(agg, true)
			agg.N, agg.Keys, agg.Cnt = 0, nil, map[string]int{}
		}
		if nviol >= 3 {
			agg.Cnt["stopped_early"]++
			break
		}
	}
	emit(agg, true)
	emit(msg{T: "end"}, true)
	return 0
}

type viol struct {
	I        int
	Sig, Msg string
	Files    []string
}

// Main runs a check and returns the exit code.
func Main(ck *Check, exe, verif string) int {
	t0 := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	total := ck.Quick
	if tier == "thorough" {
		total = ck.Thorough
		if total == 0 {
			total = ck.Quick
		}
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	// No check runs for longer than this, however slow the machine is.
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	deadline := strconv.FormatInt(t0.Add(budget).Unix(), 10)
	n := runtime.NumCPU()
	if ck.Workers > 0 && n > ck.Workers {
		n = ck.Workers
	}
	if n > total {
		n = total
	}
	work, err := os.MkdirTemp("", "vgrate")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(work)
	if ck.Setup != nil {
		if err := ck.Setup(work); err != nil {
			fmt.Println("error: setup:", err)
			return 2
		}
	}
	only := -1
	if s := os.Getenv("VERIF_ONLY"); s != "" {
		only, _ = strconv.Atoi(s)
	}

	var mu sync.Mutex
	var viols []viol
	var errs []string
	counts := map[string]int{}
	keys := map[uint64]bool{}
	var notes []string
	evals := 0
	crashes := 0

	runWorker := func(k int) {
		first := k
		retried := -1
		for first < total {
			step := n
			end := total
			if only >= 0 {
				if k != 0 {
					return
				}
				first, end = only, only+1
			}
			cmd := exec.Command(exe, "worker", ck.ID, strconv.FormatUint(seed, 10), tier, work, strconv.Itoa(first), strconv.Itoa(step), strconv.Itoa(end))
			var stderr bytes.Buffer
			cmd.Stderr = &tail{b: &stderr, max: 1 << 16}
			if os.Getenv("VGRATE_SLOW") != "" {
				cmd.Stderr = os.Stderr
			}
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0", "TZ=UTC", "VGRATE_DEADLINE="+deadline)
			po, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				mu.Lock()
				errs = append(errs, err.Error())
				mu.Unlock()
				return
			}
			cur, ended := first, false
			sawViol := map[int]bool{}
			dec := json.NewDecoder(bufio.NewReaderSize(po, 1<<20))
			stall := time.AfterFunc(14*time.Minute, func() { cmd.Process.Kill() })
			for {
				var m msg
				if dec.Decode(&m) != nil {
					break
				}
				mu.Lock()
				switch m.T {
				case "s":
					cur = m.I
				case "v":
					viols = append(viols, viol{m.I, m.Sig, m.Msg, m.Files})
					sawViol[m.I] = true
				case "e":
					errs = append(errs, fmt.Sprintf("case %d: %s", m.I, m.Msg))
				case "d":
					evals += m.N
					for a, b := range m.Cnt {
						counts[a] += b
					}
					for _, key := range m.Keys {
						keys[key] = true
					}
					if len(notes) < 6 {
						notes = append(notes, m.Notes...)
					}
				case "end":
					ended = true
				}
				mu.Unlock()
			}
			io.Copy(io.Discard, po)
			werr := cmd.Wait()
			stall.Stop()
			if ended && werr == nil {
				return
			}
			// the worker died in case cur
			mu.Lock()
			es := stderr.String()
			switch {
			case sawViol[cur]:
			case strings.Contains(es, "WARNING: DATA RACE"):
				viols = append(viols, viol{I: cur, Sig: "race:" + raceSite(es), Msg: clip(es, 5000)})
			case strings.Contains(es, "fatal error:") || strings.Contains(es, "panic:") || strings.Contains(es, "SIGSEGV"):
				viols = append(viols, viol{I: cur, Sig: "crash:" + panicSite(es), Msg: clip(es, 4000)})
			default:
				if retried == cur {
					errs = append(errs, fmt.Sprintf("worker died twice in case %d: %v %s", cur, werr, clip(es, 500)))
				} else {
					retried = cur
					first = cur
					mu.Unlock()
					continue
				}
			}
			crashes++
			stop := crashes > 12 || only >= 0
			mu.Unlock()
			if stop {
				return
			}
			first = cur + step
		}
	}
	if tier == "thorough" && only < 0 && os.Getenv("VERIF_CASES") == "" {
		each := budget / 3 / time.Duration(max(1, len(ck.Fuzz)))
		for _, t := range ck.Fuzz {
			vs, execs, inputs, err := fuzz(t, verif, work, each)
			viols = append(viols, vs...)
			counts["fuzz_executions"] += execs
			counts["fuzz_new_coverage"] += inputs
			if err != nil {
				errs = append(errs, err.Error())
			}
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); runWorker(k) }(k)
	}
	wg.Wait()

	known := loadKnown(filepath.Join(verif, "known_findings"), ck.ID)
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].I < viols[j].I })
	rdir := filepath.Join(verif, "replay")
	seenKnown := map[string]bool{}
	fresh := 0
	printed := map[string]int{}
	for _, v := range viols {
		if k, ok := known[v.Sig]; ok {
			seenKnown[v.Sig] = true
			_ = k
			continue
		}
		fresh++
		if printed[v.Sig] >= 2 || len(printed) > 15 {
			continue
		}
		printed[v.Sig]++
		os.MkdirAll(rdir, 0o755)
		base := fmt.Sprintf("%s-seed%d-case%d-%d", ck.ID, seed, v.I, printed[v.Sig])
		p := filepath.Join(rdir, base+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\ncase %d\nseed %d tier %s\nsignature %s\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY=%d ./run.sh %s\n\n%s\n", ck.ID, v.I, seed, tier, v.Sig, verif, seed, tier, v.I, ck.ID, v.Msg)
		for _, f := range v.Files {
			d := filepath.Join(rdir, base+"-"+filepath.Base(f))
			if data, err := os.ReadFile(f); err == nil {
				os.WriteFile(d, data, 0o644)
				fmt.Fprintf(&b, "\nfile: %s", d)
			}
		}
		os.WriteFile(p, b.Bytes(), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		fmt.Printf("  case %d [%s] %s\n", v.I, v.Sig, clip(strings.ReplaceAll(v.Msg, "\n", "\n    "), 1200))
	}
	for s, t := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s) observed=%v\n", ck.ID, t, s, seenKnown[s])
	}
	for _, e := range dedup(errs) {
		fmt.Println("error:", clip(e, 1000))
	}
	if fresh == 0 && only < 0 && os.Getenv("VERIF_CASES") == "" && counts["stopped_at_time_limit"] == 0 {
		for name, min := range ck.MinEvents {
			if counts[name] < min {
				errs = append(errs, fmt.Sprintf("observed only %d %q events, need %d", counts[name], name, min))
				fmt.Println("error:", errs[len(errs)-1])
			}
		}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(keys), "rule": ck.Rule,
			"samples": notes, "observed_events": counts, "workers": n,
		},
		"assumptions": ck.Assume, "wall_s": time.Since(t0).Seconds(), "violations": fresh,
	}
	if notes == nil {
		ev["coverage"].(map[string]interface{})["samples"] = []string{fmt.Sprintf("case 0 of seed %d", seed)}
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(jb, '\n'), 0o644)
	fmt.Printf("%s %s: %d cases, %d distinct, %d violations, %d errors, %.1fs\n", ck.ID, tier, evals, len(keys), fresh, len(errs), time.Since(t0).Seconds())
	switch {
	case fresh > 0:
		return 1
	case len(errs) > 0:
		return 2
	}
	return 0
}

func dedup(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] && len(r) < 10 {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func raceSite(es string) string {
	sites := map[string]bool{}
	var r []string
	for _, l := range strings.Split(es, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/pbnjay/grate") {
			l = strings.TrimSuffix(strings.TrimPrefix(l, "github.com/pbnjay/"), "()")
			if !sites[l] && len(r) < 2 {
				sites[l] = true
				r = append(r, l)
			}
		}
	}
	return strings.Join(r, "|")
}

// known_findings lines: "known: property=C01 sig=<sig> <text>" or "fixed: ..." (suppresses nothing).
func loadKnown(p, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			res[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
		}
	}
	return res
}

type tail struct {
	b   *bytes.Buffer
	max int
}

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < t.max {
		q := p
		if len(q) > t.max-t.b.Len() {
			q = q[:t.max-t.b.Len()]
		}
		t.b.Write(q)
	}
	return len(p), nil
}
