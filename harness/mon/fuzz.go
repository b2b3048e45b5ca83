package mon

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

var fuzzProgress = regexp.MustCompile(`execs: ([0-9]+) .*new interesting: ([0-9]+)`)

// fuzz runs a coverage-guided target of package fuzz, built from the current
// tree, for some time.
func fuzz(target, verif, work string, d time.Duration) (vs []viol, execs, inputs int, err error) {
	bin := filepath.Join(work, "fuzz.test")
	if _, err := os.Stat(bin); err != nil {
		build := exec.Command("go", "test", "-c", "-fuzz="+target, "-o", bin, "./fuzz")
		build.Dir = filepath.Join(verif, "harness")
		if out, err := build.CombinedOutput(); err != nil {
			return nil, 0, 0, fmt.Errorf("fuzz: %v %s", err, clip(string(out), 500))
		}
	}
	dir := filepath.Join(work, target)
	os.MkdirAll(filepath.Join(dir, "tmp"), 0o755)
	cmd := exec.Command(bin, "-test.fuzz=^"+target+"$", "-test.run=^$", fmt.Sprintf("-test.fuzztime=%ds", int(d.Seconds())), "-test.fuzzminimizetime=20x", "-test.fuzzcachedir="+filepath.Join(work, "cache"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VGRATE_FUZZ="+filepath.Join(dir, "tmp"), "GOMEMLIMIT=3GiB", "VERIF_DIR="+verif)
	stop := time.AfterFunc(d+90*time.Second, func() { cmd.Process.Kill() })
	defer stop.Stop()
	out, rerr := cmd.CombinedOutput()
	text := string(out)
	for _, m := range fuzzProgress.FindAllStringSubmatch(text, -1) {
		execs, _ = strconv.Atoi(m[1])
		inputs, _ = strconv.Atoi(m[2])
	}
	if rerr == nil {
		return nil, execs, inputs, nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", target, "*"))
	if i := strings.Index(text, "--- FAIL"); len(files) > 0 && i >= 0 {
		msg := text[i:]
		return []viol{{I: -1, Sig: "fuzz:" + target, Msg: clip(msg, 4000) + "\nto replay, copy the file to harness/fuzz/testdata/fuzz/" + target + "/x and run go test -run " + target + "/x ./fuzz in harness", Files: files[:1]}}, execs, inputs, nil
	}
	return nil, execs, inputs, fmt.Errorf("fuzz %s: %v %s", target, rerr, clip(text[max(0, len(text)-500):], 500))
}
