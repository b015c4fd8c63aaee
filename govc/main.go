package main

import (
	"runtime/pprof"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|externs|dump ...")
		os.Exit(2)
	}
	defer pool.Close()
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		tier := fs.String("tier", "quick", "")
		verif := fs.String("verif", "/verif", "")
		repo := fs.String("repo", "/repo", "")
		only := fs.String("func", "", "only this function")
		verbose := fs.Bool("v", false, "")
		loops := fs.Bool("loops", false, "")
		trace := fs.Bool("trace", false, "")
		noreplay := fs.Bool("nofind", false, "")
		bk := fs.Int("bounded", 0, "force bounded mode with this bound")
		outDir := fs.String("out", "", "run as a part of another check: evidence and replay go here")
		fs.Parse(os.Args[2:])
		repoDir = *repo
		debugLoops = *loops
		traceExec = *trace
		code := runCheck(fs.Arg(0), *verif, *tier, *only, *outDir, *verbose, *noreplay, *bk)
		pool.Close()
		pprof.StopCPUProfile(); os.Exit(code)
	case "unit":
		code := runUnitCmd(os.Args[2:])
		pool.Close()
		os.Exit(code)
	case "externs":
		scratch, _ := os.MkdirTemp("", "govc")
		defer os.RemoveAll(scratch)
		if err := prepScratch(scratch); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		P, err := LoadProgram(scratch, os.Args[2:])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		ext := map[string][]string{}
		for fn := range allFuncs(P) {
			if !P.inRepo(fn) || fn.Pkg == nil || fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					if cc.IsInvoke() {
						n := "I " + ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
						ext[n] = append(ext[n], fnName(fn))
					} else if f := cc.StaticCallee(); f != nil && !P.inRepo(f) {
						n := fnName(f)
						if _, ok := handlers[n]; ok {
							continue
						}
						ext[n] = append(ext[n], fnName(fn))
					}
				}
			}
		}
		var ks []string
		for k := range ext {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, " <- ", ext[k][0])
		}
	case "dump":
		scratch, _ := os.MkdirTemp("", "govc")
		defer os.RemoveAll(scratch)
		prepScratch(scratch)
		P, err := LoadProgram(scratch, []string{os.Args[2]})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for fn := range allFuncs(P) {
			if P.inRepo(fn) && strings.Contains(fnName(fn), os.Args[3]) {
				fmt.Println("#", fnName(fn))
				fn.WriteTo(os.Stdout)
			}
		}
	}
}

var _ = filepath.Join
