// Package mon is the monitored runner: worker processes run cases, the parent
// supervises them and writes the evidence.
package mon

import (
	"bytes"
	"context"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Check is one property's monitored workload.
type Check struct {
	ID        string
	Level     string
	Rule      string // how cases are made and what makes one non-trivial
	Assume    []string
	Quick     int // number of cases
	Thorough  int
	Race      bool   // needs the -race build
	CPUSec    int    // CPU seconds one case may use (default 60)
	AllocMB   uint64 // live-heap growth one case may reach before it is a violation (default 2048)
	MaxProcs  int    // GOMAXPROCS of a worker (0: 1)
	Workers   int    // 0: number of CPUs
	MinEvents map[string]int
	Case      func(c *Ctx)
	Setup     func(dir string) error // once, in the parent
	Fuzz      []string               // targets of package fuzz, in the thorough tier
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.CPUSec == 0 {
		c.CPUSec = 60
	}
	if c.AllocMB == 0 {
		c.AllocMB = 2048
	}
	registry[c.ID] = c
}

// Subs are entry points for helper processes (vgrate sub NAME ARGS...).
var Subs = map[string]func(args []string) int{}

// RunSub runs a helper process of this program.
func RunSub(timeout time.Duration, name string, args ...string) (out, errOut string, err error) {
	exe, err := os.Executable()
	if err != nil {
		return "", "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, append([]string{"sub", name}, args...)...)
	var b1, b2 bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b1, &tail{b: &b2, max: 1 << 16}
	err = cmd.Run()
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	return b1.String(), b2.String(), err
}

// Lookup finds a check.
func Lookup(id string) *Check { return registry[id] }

// IDs lists the registered checks.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type violation struct {
	Sig, Msg string
}

type stopCase struct{}

// Ctx is what a case sees.
type Ctx struct {
	ID    string
	Index int
	Total int
	Seed  uint64
	Tier  string
	Rand  *rand.Rand
	Dir   string // scratch, emptied after the case
	Work  string // per-run directory shared by the workers (Setup's dir)

	viol      []violation
	artifacts map[string][]byte
	keys      []uint64
	note      string
	counts    map[string]int
	trivial   bool
	nfile     int
}

// Count adds to an observed-event counter.
func (c *Ctx) Count(name string, n int) { c.counts[name] += n }

// Key names the distinct thing this case explored (for distinct_nontrivial).
func (c *Ctx) Key(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	c.keys = append(c.keys, h.Sum64())
}

// Note describes the case in words (sample).
func (c *Ctx) Note(f string, a ...interface{}) { c.note = clip(fmt.Sprintf(f, a...), 300) }

// Artifact stores bytes that go into the replay directory if the case violates.
func (c *Ctx) Artifact(name string, b []byte) {
	if c.artifacts == nil {
		c.artifacts = map[string][]byte{}
	}
	c.artifacts[name] = b
}

// Bad records a violation and continues.
func (c *Ctx) Bad(sig, f string, a ...interface{}) {
	if len(c.viol) < 4 {
		c.viol = append(c.viol, violation{sig, clip(fmt.Sprintf(f, a...), 3000)})
	}
}

// NBad is the number of violations so far.
func (c *Ctx) NBad() int { return len(c.viol) }

// Fatal records a violation and ends the case.
func (c *Ctx) Fatal(sig, f string, a ...interface{}) {
	c.Bad(sig, f, a...)
	panic(stopCase{})
}

// Must ends the case with a harness error (not a violation).
func (c *Ctx) Must(err error) {
	if err != nil {
		panic(harnessError{err.Error()})
	}
}

type harnessError struct{ s string }

// File writes bytes to a fresh scratch file with the extension.
func (c *Ctx) File(ext string, b []byte) string {
	c.nfile++
	p := filepath.Join(c.Dir, fmt.Sprintf("f%d%s", c.nfile, ext))
	c.Must(os.WriteFile(p, b, 0o644))
	return p
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func seedFor(seed uint64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", id, idx)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}

// runCase runs one case, turning a panic into a violation.
func runCase(ck *Check, c *Ctx) (herr string) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case stopCase:
		case harnessError:
			herr = p.s
		default:
			st := string(debug.Stack())
			c.Bad("panic:"+panicSite(st), "panic: %v\n%s", p, trimStack(st))
		}
	}()
	ck.Case(c)
	return ""
}

// panicSite is the innermost frame of the code under test.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/pbnjay/grate") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/pbnjay/")
		}
	}
	return "harness"
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	return clip(st, 1800)
}

// Guard runs f, reporting a panic in it as a violation; for goroutines started by a case.
func Guard(f func()) (site, msg string) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			site, msg = "panic:"+panicSite(st), fmt.Sprintf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	f()
	return
}

func goroutines() int { return runtime.NumGoroutine() }
