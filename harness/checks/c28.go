package checks

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/mon"
	"verif/harness/wb"
)

func init() {
	mon.Register(&mon.Check{
		ID: "C28", Quick: 12000, Thorough: 400000, CPUSec: 60,
		Rule:      "each case puts one file (all formats, a third of them damaged) into a scratch folder, with a random mode and time, next to a folder for temporary files, opens it by one of several paths (absolute, relative, with dots, through symbolic links, a hard link), reads it while it is renamed, removed or replaced, or the working directory changes, at a random point, and closes it; the reading must be that of the file alone, and names, contents, modes and times in both folders and the working directory must be as before; distinct = distinct (kind, path, event, point of the event)",
		Assume:    []string{"POSIX files: an open file outlives its name", "the name of the sheet of a text file may be made from the path"},
		MinEvents: map[string]int{"files": 8000, "damaged": 2500, "large": 200, "large_parts_damaged": 30, "refused": 1000, "rows": 50000, "relative": 2000, "links": 2500, "moved": 1000, "removed": 800, "replaced": 800, "chdir": 800, "snapshots": 8000},
		Case:      caseC28,
	})
}

// treeState tells what is below the folders.
func treeState(c *mon.Ctx, dirs ...string) map[string]string {
	res := map[string]string{}
	for _, d := range dirs {
		c.Must(filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			s := fmt.Sprint(fi.Mode())
			switch {
			case fi.Mode().IsRegular():
				b, err := os.ReadFile(p)
				if err != nil {
					return err
				}
				s += fmt.Sprintf(" %d bytes %x, time %v", len(b), sha256.Sum256(b), fi.ModTime().UnixNano())
			case fi.Mode()&os.ModeSymlink != 0:
				t, _ := os.Readlink(p)
				s += " to " + t
			}
			res[p] = s
			return nil
		}))
	}
	return res
}

func caseC28(c *mon.Ctx) {
	r := c.Rand
	damaged := r.IntN(3) == 0
	size := wb.Pick(r, 4, 20)
	if r.IntN(25) == 0 { // parts above the usual buffer sizes
		size = wb.Pick(r, 2000, 6000)
		c.Count("large", 1)
	}
	b, ext, kind, _ := anyFile(r, size, damaged)
	if size > 20 && r.IntN(3) == 0 { // a large workbook
		sh := bookShapes[wb.Pick(r, 0, 4)]
		w := sh.make(r, 3000+r.IntN(3000))
		if ext == ".xls" {
			b, _ = wb.BuildXLS(w, randXLSOpts(r), randCFBOpts(r))
			kind = "large xls"
			if damaged {
				b, kind = b[:r.IntN(len(b))], "cut large xls"
			}
		} else {
			b, _, _ = wb.BuildXLSX(w, wb.RandXLSXOpts(r))
			ext, kind = ".xlsx", "large xlsx"
		}
	}
	if size > 20 && damaged && r.IntN(2) == 0 { // the largest part is damaged
		parts, _ := wb.XLSXParts(bookShapes[4].make(r, 4000+r.IntN(3000)), wb.RandXLSXOpts(r))
		k := 0
		for i, p := range parts {
			if i > 0 && len(p.Data) > len(parts[k].Data) && (r.IntN(2) == 0 || strings.Contains(strings.ToLower(p.Name), "strings")) {
				k = i
			}
		}
		parts[k].Data = parts[k].Data[:len(parts[k].Data)-1-r.IntN(min(100, len(parts[k].Data)))]
		if len(parts[k].Data) >= 1<<16 {
			c.Count("large_parts_damaged", 1)
		}
		b, ext, kind = wb.ZipParts(parts, wb.RandXLSXOpts(r)), ".xlsx", "damaged large xlsx"
	}
	text := ext == ".csv" || ext == ".tsv"
	base, err := filepath.EvalSymlinks(c.Dir)
	c.Must(err)
	dir, tmp, cwd, away := base+"/d", base+"/tmp", base+"/cwd", base+"/away"
	for _, d := range []string{dir, tmp, cwd, away} {
		c.Must(os.Mkdir(d, 0o755))
	}
	name := wb.Pick(r, "file", "with space", "büch", "a.b.c", "100%", ".hidden", strings.Repeat("long", 50)) + ext
	if r.IntN(6) == 0 && !text {
		name = "none"
	}
	p := dir + "/" + name
	c.Must(os.WriteFile(p, b, 0o644))
	c.Artifact("file"+ext, b)
	old, err := os.Getwd()
	c.Must(err)
	oldTmp, hadTmp := os.LookupEnv("TMPDIR")
	c.Must(os.Setenv("TMPDIR", tmp))
	defer func() {
		os.Chdir(old)
		if hadTmp {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	c.Must(os.Chdir(cwd))
	open, how := p, r.IntN(7)
	switch how {
	case 1:
		open = "../d/" + name
		c.Count("relative", 1)
	case 2:
		c.Must(os.Chdir(dir))
		open = name
		c.Count("relative", 1)
	case 3:
		open = dir + "/./../d//" + name
	case 4: // a link to the file
		open = cwd + "/link" + filepath.Ext(name)
		c.Must(os.Symlink(p, open))
		c.Count("links", 1)
	case 5: // a link to the folder
		c.Must(os.Symlink(dir, cwd+"/folder"))
		open = "folder/" + name
		c.Count("links", 1)
	case 6:
		open = cwd + "/hard" + filepath.Ext(name)
		c.Must(os.Link(p, open))
		c.Count("links", 1)
	}
	mode := wb.Pick[os.FileMode](r, 0o644, 0o444, 0o400, 0o600)
	c.Must(os.Chmod(p, mode))
	tm := time.Unix(1e9+r.Int64N(5e8), r.Int64N(1e9))
	c.Must(os.Chtimes(p, tm, tm))
	c.Count("files", 1)
	if damaged {
		c.Count("damaged", 1)
	}
	want := readSolo(p, func() {})
	norm(want)
	before := treeState(c, dir, tmp, cwd)
	event := wb.Pick(r, "", "moved", "removed", "replaced", "chdir")
	at, step := r.IntN(12), 0
	hit := false
	yield := func() {
		if step++; step != at+1 || event == "" {
			return
		}
		hit = true
		c.Count(event, 1)
		target := p
		if how == 4 || how == 6 {
			target = open // the name it was opened by
		}
		switch event {
		case "removed":
			c.Must(os.Remove(target))
		case "moved":
			c.Must(os.Rename(target, away+"/x"))
		case "replaced":
			c.Must(os.Rename(target, away+"/x"))
			c.Must(os.WriteFile(target, []byte("another\tfile\nwith\tother rows\n"), 0o644))
		case "chdir":
			c.Must(os.Chdir(away))
		}
	}
	got := readOpen(open, yield)
	norm(got)
	if hit && event != "chdir" {
		target := p
		if how == 4 || how == 6 {
			target = open
		}
		switch {
		case event != "removed":
			c.Must(os.Rename(away+"/x", target))
		case how == 4:
			c.Must(os.Symlink(p, target))
		case how == 6:
			c.Must(os.Link(p, target))
		default:
			c.Must(os.WriteFile(p, b, 0o644))
			c.Must(os.Chmod(p, mode))
			c.Must(os.Chtimes(p, tm, tm))
		}
	}
	c.Must(os.Chdir(old))
	what := fmt.Sprintf("%s opened as %s", kind, q(strings.ReplaceAll(open, base, "")))
	if hit {
		what += fmt.Sprintf(", %s at step %d", event, at)
	}
	c.Note("%s", what)
	c.Key(kind, how, event, at, hit)
	if want.Err != "" {
		c.Count("refused", 1)
	}
	for _, s := range want.Sheets {
		c.Count("rows", len(s.Rows))
	}
	if text && len(want.List) == 1 && len(got.List) == 1 {
		got.Sheets = map[string]*soloSheet{want.List[0]: got.Sheets[got.List[0]]}
		got.List = want.List
	}
	if d := diffSolo(want, got); d != "" {
		// some damaged files give different results every time
		again := readAgain(p)
		if again2 := readAgain(p); diffSolo(want, again) != "" || diffSolo(again, again2) != "" {
			c.Count("unstable", 1)
		} else {
			c.Fatal("reading", "%s: %s", what, d)
		}
	}
	after := treeState(c, dir, tmp, cwd)
	c.Count("snapshots", 1)
	for n, s := range before {
		if x, ok := after[n]; !ok {
			c.Fatal("gone", "%s: %s is gone", what, strings.TrimPrefix(n, base))
		} else if x != s {
			c.Fatal("changed", "%s: %s was %s, and is %s", what, strings.TrimPrefix(n, base), s, x)
		}
	}
	for n, s := range after {
		if _, ok := before[n]; !ok {
			c.Fatal("left", "%s: %s was left behind (%s)", what, strings.TrimPrefix(n, base), s)
		}
	}
}

// readOpen is readSolo with more steps.
func readOpen(path string, yield func()) *solo {
	res := &solo{Sheets: map[string]*soloSheet{}}
	src, err := grate.Open(path)
	if err != nil {
		res.Err = errText(err)
		return res
	}
	yield()
	res.List, err = allNames(src)
	if err != nil {
		res.Err = "list " + errText(err)
		src.Close()
		return res
	}
	yield()
	for _, n := range res.List {
		res.Sheets[n] = readSheet(src, n, yield)
		yield()
	}
	src.Close()
	yield()
	return res
}
