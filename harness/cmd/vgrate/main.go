// Command vgrate runs the monitored checks.
package main

import (
	"fmt"
	"os"
	"strconv"

	_ "verif/harness/checks"
	"verif/harness/mon"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: vgrate check ID | vgrate worker ...")
		os.Exit(2)
	}
	if f := mon.Subs[os.Args[2]]; os.Args[1] == "sub" && f != nil {
		os.Exit(f(os.Args[3:]))
	}
	ck := mon.Lookup(os.Args[2])
	if ck == nil {
		fmt.Println("unknown check", os.Args[2], mon.IDs())
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		exe, _ := os.Executable()
		os.Exit(mon.Main(ck, exe, verif))
	case "worker":
		a := os.Args[3:]
		seed, _ := strconv.ParseUint(a[0], 10, 64)
		first, _ := strconv.Atoi(a[3])
		step, _ := strconv.Atoi(a[4])
		total, _ := strconv.Atoi(a[5])
		os.Exit(mon.Worker(ck, seed, a[1], a[2], first, step, total))
	}
}
