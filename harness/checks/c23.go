package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C23", Quick: 8000, Thorough: 800000, CPUSec: 300,
		Setup:     buildGrater,
		Rule:      "each case makes up to 12 files (sometimes 60, with fewer file descriptors allowed than there are files) of all formats, good, damaged, unknown and missing, runs the real grater on them (with -v in every fourth case, output to a pipe or to a file) and compares all of its standard output with the rows that the library returns for each sheet of each file, and its standard error with the errors; distinct = distinct (kinds of files, flags)",
		Assume:    []string{"the library readings of the other properties are right", "files whose result differs between two readings are left out"},
		MinEvents: map[string]int{"runs": 1500, "files": 8000, "sheets": 8000, "rows": 50000, "errors": 2000, "verbose": 400, "few_descriptors": 50, "usage": 20, "sheet_errors": 10},
		Case:      caseC23,
	})
}

func buildGrater(dir string) error { return buildCmd(dir, "grater", "grater") }

func buildCmd(dir, name, out string, flags ...string) error {
	src := "/repo"
	if s := os.Getenv("VERIF_REPO"); s != "" {
		src = s
	}
	args := append([]string{"build"}, flags...)
	args = append(args, "-o", filepath.Join(dir, out), "./cmd/"+name)
	cmd := exec.Command("go", args...)
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go %v: %v\n%s", args, err, out)
	}
	return nil
}

// graterExpect is what grater has to print for a file.
func graterExpect(c *mon.Ctx, path string, verbose bool) (out string, errs []string) {
	src, err := grate.Open(path)
	if err != nil {
		return "", []string{err.Error()}
	}
	defer src.Close()
	names, err := src.List()
	if err != nil {
		return "", []string{err.Error()}
	}
	var b strings.Builder
	for _, n := range names {
		col, err := src.Get(n)
		if err != nil {
			errs = append(errs, err.Error())
			c.Count("sheet_errors", 1)
			continue
		}
		c.Count("sheets", 1)
		for col.Next() {
			if verbose {
				b.WriteString(strings.Join(col.Types(), "\t") + "\n")
			}
			b.WriteString(strings.Join(col.Strings(), "\t") + "\n")
			c.Count("rows", 1)
		}
	}
	return b.String(), errs
}

func caseC23(c *mon.Ctx) {
	r := c.Rand
	verbose := r.IntN(4) == 0
	n := 1 + r.IntN(11)
	limit := 0
	switch r.IntN(25) {
	case 0:
		n, limit = 40+r.IntN(20), 24
		c.Count("few_descriptors", 1)
	case 1:
		n = 0
	}
	var args []string
	var want strings.Builder
	var errs []string
	kinds := ""
	for i := 0; i < n; i++ {
		if i > 0 && r.IntN(15) == 0 && len(args) > 0 { // the same file again
			p := args[r.IntN(len(args))]
			o, e := graterExpect(c, p, verbose)
			args = append(args, p)
			want.WriteString(o)
			errs = append(errs, e...)
			continue
		}
		cells := wb.Pick(r, 4, 20, 80)
		if limit > 0 {
			cells = 4
		}
		b, ext, kind, _ := anyFile(r, cells, r.IntN(3) == 0)
		if r.IntN(15) == 0 {
			ext = wb.Pick(r, "", ".xls", ".txt", ".XLSX")
		}
		p := c.File(ext, b)
		c.Artifact(fmt.Sprintf("%d%s", i, ext), b)
		if r.IntN(20) == 0 {
			os.Remove(p)
			kind = "missing"
		}
		o, e := graterExpect(c, p, verbose)
		if o2, e2 := graterExpect(c, p, verbose); o != o2 || fmt.Sprint(e) != fmt.Sprint(e2) {
			c.Count("unstable", 1)
			continue
		}
		c.Count("files", 1)
		args = append(args, p)
		want.WriteString(o)
		errs = append(errs, e...)
		kinds += kind + ","
	}
	c.Count("errors", len(errs))
	cmdline := []string{filepath.Join(c.Work, "grater")}
	if verbose {
		cmdline = append(cmdline, "-v")
		c.Count("verbose", 1)
	}
	cmdline = append(cmdline, args...)
	if limit > 0 {
		cmdline = append([]string{"/bin/bash", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, limit)}, cmdline...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, cmdline[0], cmdline[1:]...)
	cmd.Dir = c.Dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	toFile := r.IntN(4) == 0
	if toFile {
		f, err := os.Create(filepath.Join(c.Dir, "stdout"))
		c.Must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	c.Count("runs", 1)
	desc := fmt.Sprintf("grater verbose=%v files=%d (%s)", verbose, len(args), kinds)
	c.Note("%s", desc)
	c.Key(kinds, verbose, limit)
	got := stdout.String()
	if toFile {
		b, err := os.ReadFile(filepath.Join(c.Dir, "stdout"))
		c.Must(err)
		got = string(b)
	}
	se := stderr.String()
	tail := se[max(0, len(se)-1500):]
	if ctx.Err() != nil {
		c.Fatal("hang", "%s does not end\n%s", desc, tail)
	}
	if len(args) == 0 {
		c.Count("usage", 1)
		if err == nil || got != "" || !strings.Contains(se, "USAGE") {
			c.Fatal("usage", "without files: %v, stdout %q, stderr %q", err, got, tail)
		}
		return
	}
	if err != nil {
		c.Fatal("exit", "%s: %v\n%s", desc, err, tail)
	}
	if got != want.String() {
		c.Fatal("output", "%s: the output is not that of the rows: %s", desc, firstDiff(want.String(), got))
	}
	// each error is told, in order
	rest := se
	for _, e := range errs {
		i := strings.Index(rest, e+"\n")
		if i < 0 {
			c.Fatal("errors", "%s: the error %q is not on the standard error\n%s", desc, e, tail)
		}
		rest = rest[i+len(e)+1:]
	}
}
