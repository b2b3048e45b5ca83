package checks

import (
	"bytes"
	"context"
	"crypto/md5"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C21", Quick: 3000, Thorough: 45000, CPUSec: 300,
		Setup:     buildTools,
		Rule:      "each case makes up to 380 files (with over 200, only 160 descriptors and no finalizers; all formats, many or few sheets, sheets larger than the write buffers, hidden and empty sheets, sheet names that become the same file name, base names shared by several files, damaged, unknown and missing files), runs the real grate2tsv on them (race build or plain, 1 to 8 CPUs, different GOMAXPROCS, flags, sometimes twice), and an offline checker compares the stats file and the results tree with what the library returns for each file; distinct = distinct (files, sheets, flags, CPUs)",
		Assume:    []string{"file and sheet names have no tabs or newlines", "the library readings of the other properties are right"},
		MinEvents: map[string]int{"runs": 1500, "race_runs": 400, "one_cpu": 200, "files": 8000, "sheets": 15000, "outputs": 9000, "error_files": 1500, "large_outputs": 300, "same_output_name": 300, "same_base": 300, "lines": 15000, "many": 60, "twice": 60, "few_descriptors": 10, "exact": 100, "long": 15, "earlier": 100, "overwritten": 300},
		Case:      caseC21,
	})
}

// buildTools builds grate2tsv from the working tree.
func buildTools(dir string) error {
	src := "/repo"
	if s := os.Getenv("VERIF_REPO"); s != "" {
		src = s
	}
	for name, flags := range map[string][]string{"plain": nil, "race": {"-race"}} {
		args := append([]string{"build"}, flags...)
		args = append(args, "-o", filepath.Join(dir, "grate2tsv-"+name), "./cmd/grate2tsv")
		cmd := exec.Command("go", args...)
		cmd.Dir = src
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("go %v: %v\n%s", args, err, out)
		}
	}
	return nil
}

type g2sheet struct {
	name  string
	err   bool
	empty bool
	rows  int
	cols  int // up to the last one with something in it
	out   string
	san   string // the name in the name of the output
}

type g2file struct {
	arg, base, kind string
	fail            bool
	sheets          []g2sheet
}

// oneSpace joins runs of blanks, tabs and newlines into one blank.
func oneSpace(s string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == ' ' || c == '\n' || c == '\r' || c == '\t' {
			if !in {
				b.WriteByte(' ')
			}
			in = true
		} else {
			b.WriteByte(c)
			in = false
		}
	}
	return b.String()
}

// g2expect is what grate2tsv has to make of a file.
func g2expect(path string, condense, trim, skip bool) (f g2file) {
	f.arg = path
	src, err := grate.Open(path)
	if err != nil {
		f.fail = true
		return
	}
	defer src.Close()
	names, err := src.List()
	if err != nil {
		f.fail = true
		return
	}
	for _, n := range names {
		s := g2sheet{name: n}
		col, err := src.Get(n)
		if err != nil {
			s.err = true
			f.sheets = append(f.sheets, s)
			continue
		}
		s.empty = col.IsEmpty()
		if !s.empty {
			var b strings.Builder
			for col.Next() {
				row := append([]string{}, col.Strings()...)
				blank := true
				for i, x := range row {
					if condense {
						x = oneSpace(x)
					}
					if trim {
						x = strings.TrimSpace(x)
					}
					row[i] = x
					blank = blank && x == ""
					if x != "" {
						s.cols = max(s.cols, i+1)
					}
				}
				if blank && skip {
					continue
				}
				b.WriteString(strings.Join(row, "\t") + "\n")
				s.rows++
			}
			s.out = b.String()
		}
		f.sheets = append(f.sheets, s)
	}
	return
}

func sanitized(s string) string {
	var b strings.Builder
	in := false
	for _, c := range s {
		if c < 128 && (c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			b.WriteRune(c)
			in = false
			continue
		}
		if !in {
			b.WriteByte('_')
		}
		in = true
	}
	return b.String()
}

func g2book(r *rand.Rand, isXLS bool) *wb.Workbook {
	w := richBook(r, isXLS, wb.Pick(r, 3, 20, 60))
	used := map[string]bool{}
	rename := r.IntN(3) == 0
	if r.IntN(4) == 0 { // more sheets
		w2 := genBook(r, GenOpts{XLS: isXLS, MaxSheets: 15, MaxCells: 6, Hidden: true})
		for _, s := range w2.Sheets {
			for i := range s.Cells {
				s.Cells[i].Fmt = 0
			}
			w.Sheets = append(w.Sheets, s)
		}
	}
	foreign := r.IntN(40) == 0 // many names without any ASCII letter
	for foreign && len(w.Sheets) < 60 {
		w.Sheets = append(w.Sheets, wb.Sheet{DimRows: 1, DimCols: 1, Cells: []wb.Cell{{Kind: wb.Num, Num: float64(len(w.Sheets)), NumText: fmt.Sprint(len(w.Sheets))}}})
	}
	for i := range w.Sheets {
		s := &w.Sheets[i]
		n := strings.Map(func(c rune) rune {
			if c < ' ' {
				return '_'
			}
			return c
		}, s.Name)
		if rename {
			n = wb.Pick(r, "a b", "a-b", "a_b", "a.b", "a  b", "é", "ü", "日本", "_", "a_b_2", "x", "X", "a b ", "__2", "a_b_3")
		}
		if foreign {
			n = string([]rune{rune(0x430 + i%30), rune(0x430 + i/30)})
		}
		for used[strings.ToLower(n)] {
			n = fmt.Sprintf("%.20s(%d)", strings.ToValidUTF8(n, ""), r.IntN(10000))
		}
		used[strings.ToLower(n)] = true
		s.Name = n
		// a line of its own
		s.Cells = append(s.Cells[:0:0], s.Cells...)
		if len(s.Cells) > 0 && s.Type == 0 && r.IntN(3) > 0 {
			for k := range s.Cells {
				if s.Cells[k].Kind == wb.Str && s.Cells[k].Str != "" {
					s.Cells[k].Str = fmt.Sprintf("%d %s", r.IntN(1e9), s.Cells[k].Str)
					s.Cells[k].Fmt = 0
					break
				}
			}
		}
	}
	if r.IntN(6) == 0 { // larger than the buffers
		s := &w.Sheets[0]
		s.Cells, s.Merges, s.Links = nil, nil, nil
		s.DimRows, s.DimCols = -1, -1
		nr := 200 + r.IntN(1500)
		for i := 0; i < nr; i++ {
			if r.IntN(6) == 0 {
				continue
			}
			for k := 0; k < 6; k++ {
				s.Cells = append(s.Cells, wb.Cell{Row: i, Col: k, Kind: wb.Num, Num: float64(r.IntN(1e6)), NumText: ""})
				c := &s.Cells[len(s.Cells)-1]
				c.NumText = fmt.Sprint(int(c.Num))
			}
		}
	}
	return w
}

func caseC21(c *mon.Ctx) {
	r := c.Rand
	in := filepath.Join(c.Dir, "in")
	run := filepath.Join(c.Dir, "run")
	os.MkdirAll(in, 0o755)
	os.MkdirAll(run, 0o755)
	relative := r.IntN(4) == 0
	if relative {
		run = in
	}
	condense, trim, skip := r.IntN(4) > 0, r.IntN(4) > 0, r.IntN(4) > 0
	var files []g2file
	n := 1 + r.IntN(8)
	switch r.IntN(12) {
	case 0:
		n = 20 + r.IntN(40)
		c.Count("many", 1)
	case 1:
		n = 0
	case 2:
		if r.IntN(6) == 0 {
			n = 280 + r.IntN(100)
		}
	}
	bases := []string{"a", "b", "data", "a.b", "sheet 1", "é", "x%d", "A", "b.c.d", "tab_le"}
	names := map[string]bool{}
	dirs := []string{in, filepath.Join(in, "sub")}
	os.MkdirAll(dirs[1], 0o755)
	for i := 0; i < n; i++ {
		var b []byte
		ext, kind := "", ""
		switch k := r.IntN(10); {
		case k < 3:
			b, _ = wb.BuildXLS(g2book(r, true), randXLSOpts(r), randCFBOpts(r))
			ext, kind = ".xls", "xls"
		case k < 6:
			b, _, _ = wb.BuildXLSX(g2book(r, false), wb.RandXLSXOpts(r))
			ext, kind = ".xlsx", "xlsx"
		default:
			b, ext, kind, _ = anyFile(r, wb.Pick(r, 3, 30), k > 7)
		}
		base := wb.Pick(r, fmt.Sprintf("file%d", i), bases[r.IntN(len(bases))])
		if n > 200 {
			base = fmt.Sprintf("file%d", i)
		}
		if r.IntN(12) == 0 {
			ext = wb.Pick(r, "", ".xls", ".txt", ".tar.gz")
		}
		p := filepath.Join(dirs[r.IntN(8)/7], base+ext)
		if names[p] {
			continue
		}
		names[p] = true
		switch r.IntN(60) {
		case 0: // exactly as long as a few write buffers
			b, kind = []byte(strings.Repeat("the quick brown fox jumps over,"+strings.Repeat("x", 32)+"\n", 64*(1+r.IntN(4)))), "exact"
			c.Count("exact", 1)
		case 1: // more rows than a sheet of a workbook, the last one the widest
			if r.IntN(6) == 0 {
				b, kind = []byte(strings.Repeat("a,b,c\n", 66000+r.IntN(5000))+"1,2,3,4,5\n"), "long"
				c.Count("long", 1)
			}
		}
		switch {
		case r.IntN(15) == 0:
			kind = "missing"
		case r.IntN(30) == 0:
			kind = "directory"
			os.Mkdir(p, 0o755)
		default:
			c.Must(os.WriteFile(p, b, 0o644))
		}
		c.Artifact(fmt.Sprintf("%d-%s", i, filepath.Base(p)), b)
		f := g2expect(p, condense, trim, skip)
		odd := false // a damaged sheet name, which would break a line of the stats
		for _, s := range f.sheets {
			odd = odd || strings.ContainsAny(s.name, "\t\n")
		}
		if odd {
			os.Remove(p)
			continue
		}
		f.kind = kind
		f.base = filepath.Base(strings.TrimSuffix(p, filepath.Ext(p)))
		if relative {
			f.arg, _ = filepath.Rel(in, p)
		}
		for k := range f.sheets {
			f.sheets[k].san = sanitized(f.sheets[k].name)
			if f.sheets[k].name == f.arg {
				f.sheets[k].san = "main"
			}
		}
		files = append(files, f)
	}
	info := wb.Pick(r, "results.txt", "results.txt", "stats.tsv")
	args := []string{fmt.Sprintf("-r=%v", condense), fmt.Sprintf("-w=%v", trim), fmt.Sprintf("-b=%v", skip)}
	if info != "results.txt" {
		args = append(args, "-i", info)
	}
	if r.IntN(4) == 0 {
		args = append(args, "-l", "log.txt")
	}
	pretend := r.IntN(12) == 0
	if pretend {
		args = append(args, "-p")
	}
	if r.IntN(20) == 0 {
		args = append(args, "-cpuprofile", "cpu.prof")
	}
	if r.IntN(20) == 0 {
		args = append(args, "-memprofile", "mem.prof")
	}
	earlier := "" // what earlier runs wrote
	if r.IntN(8) == 0 {
		earlier = "time\tfilename\tsheet\trows\tcolumns\terrors\n"
		for i := wb.Pick(r, 0, 1, 20, 1000, 4000); i > 0; i-- {
			earlier += fmt.Sprintf("2020-01-02 03:04:05\told%d.csv\told%d.csv\t%d\t4\t-\n", i, i, r.IntN(1000))
		}
		c.Must(os.WriteFile(filepath.Join(run, info), []byte(earlier), 0o644))
		c.Count("earlier", 1)
		for _, f := range files { // results of earlier runs, of other contents
			for _, s := range f.sheets {
				if !s.err && !s.empty && !pretend && r.IntN(3) == 0 {
					sum := fmt.Sprintf("%x", md5.Sum([]byte(f.base)))
					dir := filepath.Join(run, "results", sum[:2], sum[2:4])
					c.Must(os.MkdirAll(dir, 0o755))
					c.Must(os.WriteFile(filepath.Join(dir, f.base+"."+s.san+".tsv"), bytes.Repeat([]byte("old\tline\n"), r.IntN(3000)), 0o644))
					c.Count("overwritten", 1)
				}
			}
		}
	}
	for _, f := range files {
		args = append(args, f.arg)
	}
	bin := "grate2tsv-plain"
	if r.IntN(3) == 0 && len(files) <= 200 {
		bin = "grate2tsv-race"
		c.Count("race_runs", 1)
	}
	cpus := wb.Pick(r, 1, 1, 2, 3, 4, 8, 8)
	if cpus > runtime.NumCPU() {
		cpus = runtime.NumCPU()
	}
	procs := wb.Pick(r, 0, 0, 1, 2, 16)
	desc := fmt.Sprintf("%s cpus=%d procs=%d %s files=%d", bin, cpus, procs, strings.Join(args[:len(args)-len(files)], " "), len(files))
	c.Artifact("run.txt", []byte(desc+"\n"+strings.Join(args, "\n")))
	runs := 1
	if r.IntN(12) == 0 {
		runs = 2
		c.Count("twice", 1)
	}
	clashes := false // which sheet gets which of the alike names is up to the schedule
	sans := map[string]bool{}
	for _, f := range files {
		for _, s := range f.sheets {
			n := f.base + "." + s.san
			for i := range n {
				clashes = clashes || n[i] == '_' && sans[n[:i]]
			}
			for o := range sans {
				clashes = clashes || o == n || strings.HasPrefix(o, n+"_")
			}
			sans[n] = true
		}
	}
	for k := 0; k < runs; k++ {
		if k > 0 && clashes {
			c.Must(os.RemoveAll(filepath.Join(run, "results")))
		}
		cmdline := append([]string{filepath.Join(c.Work, bin)}, args...)
		if cpus < runtime.NumCPU() {
			first := r.IntN(runtime.NumCPU() - cpus + 1)
			cmdline = append([]string{"taskset", "-c", fmt.Sprintf("%d-%d", first, first+cpus-1)}, cmdline...)
			if cpus == 1 {
				c.Count("one_cpu", 1)
			}
		}
		if len(files) > 200 {
			// up to 100 results may wait for their cleanup, and a few files are
			// in use: a tool that keeps more open cannot open the last ones
			cmdline = append([]string{"sh", "-c", `ulimit -n 160; exec "$@"`, "sh"}, cmdline...)
			c.Count("few_descriptors", 1)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
		cmd := exec.CommandContext(ctx, cmdline[0], cmdline[1:]...)
		cmd.Dir = run
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		if len(files) > 200 { // no finalizer closes what was forgotten
			cmd.Env = append(cmd.Env, "GOGC=off", "GOMEMLIMIT=1GiB")
		}
		if procs > 0 {
			cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
		}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		c.Count("runs", 1)
		text := out.String()
		tail := text[max(0, len(text)-2500):]
		switch {
		case timedOut:
			c.Fatal("hang", "%s does not end\n%s", desc, tail)
		case strings.Contains(text, "WARNING: DATA RACE"):
			i := strings.Index(text, "WARNING: DATA RACE")
			c.Fatal("race", "%s\n%s", desc, text[i:min(len(text), i+3000)])
		case err != nil:
			c.Fatal("exit", "%s: %v\n%s", desc, err, tail)
		}
	}

	// the stats file: the header, and one line for each sheet or failed file
	fail := func(sig, f string, a ...interface{}) {
		c.Fatal(sig, "%s: %s", desc, fmt.Sprintf(f, a...))
	}
	sb, err := os.ReadFile(filepath.Join(run, info))
	if err != nil {
		fail("stats", "%v", err)
	}
	if !strings.HasPrefix(string(sb), earlier) {
		fail("stats", "the %d bytes of earlier runs are not kept", len(earlier))
	}
	if earlier != "" {
		sb = append([]byte(earlier[:strings.Index(earlier, "\n")+1]), sb[len(earlier):]...)
	}
	lines := strings.Split(string(sb), "\n")
	if lines[len(lines)-1] != "" {
		fail("stats", "the last line of the stats is not complete: %q", lines[len(lines)-1])
	}
	lines = lines[:len(lines)-1]
	if len(lines) == 0 || !strings.HasPrefix(lines[0], "time\tfilename\tsheet\trows") {
		fail("stats", "the stats have no header")
	}
	type key struct{ file, sheet string }
	type line struct {
		rows string
		cols string
		err  string
	}
	got := map[key][]line{}
	for _, l := range lines[1:] {
		f := strings.SplitN(l, "\t", 6)
		if len(f) != 6 {
			fail("stats", "broken line %q", l)
		}
		c.Count("lines", 1)
		k := key{f[1], f[2]}
		got[k] = append(got[k], line{f[3], f[4], f[5]})
	}
	want := map[key][]line{}
	total := 0
	for _, f := range files {
		c.Count("files", 1)
		if f.fail {
			c.Count("error_files", 1)
			want[key{f.arg, "-"}] = append(want[key{f.arg, "-"}], line{"-", "-", "error"})
			total++
			continue
		}
		for _, s := range f.sheets {
			c.Count("sheets", 1)
			total++
			e := "-"
			if s.err {
				e = "error"
			}
			want[key{f.arg, s.name}] = append(want[key{f.arg, s.name}], line{strconv.Itoa(s.rows), strconv.Itoa(s.cols), e})
		}
	}
	for k, ls := range want {
		g := got[k]
		if len(g) != runs*len(ls) {
			fail("lines", "%d lines for sheet %s of %s in the stats, not %d", len(g), q(k.sheet), filepath.Base(k.file), runs*len(ls))
		}
		canon := func(ls []line) (r []string) {
			for _, l := range ls {
				if l.err != "-" {
					l.err = "error"
					if l.rows == "-" || l.rows == "0" {
						l.rows = ""
					}
					l.cols = ""
				}
				r = append(r, l.rows+" "+l.cols+" "+l.err)
			}
			sort.Strings(r)
			return
		}
		var exp []line
		for i := 0; i < runs; i++ {
			exp = append(exp, ls...)
		}
		if a, b := canon(exp), canon(g); fmt.Sprint(a) != fmt.Sprint(b) {
			fail("lines", "sheet %s of %s: rows, columns and error are %v in the stats, not %v", q(k.sheet), filepath.Base(k.file), b, a)
		}
	}
	if len(lines)-1 != runs*total {
		fail("lines", "%d lines in the stats, not %d", len(lines)-1, runs*total)
	}

	// the results
	outs := map[string]string{}
	filepath.WalkDir(filepath.Join(run, "results"), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			outs[p] = string(b)
		}
		return nil
	})
	if pretend {
		if len(outs) > 0 {
			fail("pretend", "%d files were written", len(outs))
		}
	} else {
		perBase := map[string][]g2sheet{}
		for _, f := range files {
			for _, s := range f.sheets {
				if !s.err && !s.empty {
					perBase[f.base] = append(perBase[f.base], s)
				}
			}
		}
		seen := 0
		fileBases := map[string]int{}
		for _, f := range files {
			fileBases[f.base]++
		}
		for base, sheets := range perBase {
			if fileBases[base] > 1 {
				c.Count("same_base", 1)
			}
			sum := fmt.Sprintf("%x", md5.Sum([]byte(base)))
			dir := filepath.Join(run, "results", sum[:2], sum[2:4])
			have := map[string]int{}
			count := 0
			for p, b := range outs {
				name := strings.TrimSuffix(filepath.Base(p), ".tsv")
				if i := strings.LastIndexByte(name, '.'); filepath.Dir(p) == dir && i >= 0 && name[:i] == base {
					have[b]++
					count++
				}
			}
			seen += count
			byName := map[string]int{}
			for _, s := range sheets {
				byName[s.san]++
			}
			for _, s := range sheets {
				c.Count("outputs", 1)
				if len(s.out) > 4096 {
					c.Count("large_outputs", 1)
				}
				if byName[s.san] > 1 {
					c.Count("same_output_name", 1)
				}
				if have[s.out] == 0 {
					near := ""
					if b, ok := outs[filepath.Join(dir, base+"."+s.san+".tsv")]; ok {
						near = ", the file of that name: " + firstDiff(s.out, b)
					}
					fail("output", "no file holds the %d rows of sheet %s of %s%s", s.rows, q(s.name), q(base), near)
				}
				have[s.out]--
			}
			if count != len(sheets) {
				fail("output", "%d files for the %d sheets of %s", count, len(sheets), q(base))
			}
			// the names tell which is which, unless something else has that name
			for _, s := range sheets {
				sn := s.san
				clash := byName[sn] > 1
				for o := range byName {
					clash = clash || o != sn && strings.HasPrefix(sn, o+"_")
				}
				if !clash && outs[filepath.Join(dir, base+"."+sn+".tsv")] != s.out {
					fail("attribution", "the file named after sheet %s of %s holds something else", q(s.name), q(base))
				}
			}
		}
		if seen != len(outs) {
			fail("output", "%d files in the results, %d belong to sheets", len(outs), seen)
		}
	}
	c.Note("%s", desc)
	kinds := ""
	for _, f := range files {
		kinds += fmt.Sprintf("%s%d,", f.kind, len(f.sheets))
	}
	c.Key(desc, kinds)
}
