package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Units of one check in processes of their own ("parallel" in the contract file): the same work, split.

type oblOut struct {
	Label, Kind, Pos    string
	Res                 int
	Backend, Info, Qry  string
	Ms                  int64
	Trail, Impre        []string
	Hyps                []string
	Goal                string
}

type unitOut struct {
	Name, Aborted            string
	Obls                     []oblOut
	Exits, Steps             int
	Wall                     float64
	Inlined, Externs, Notes  []string
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// runUnitCmd: govc unit VERIF REPO PROP INDEX TIMEOUT DEADLINE
func runUnitCmd(a []string) int {
	verif, prop := a[0], a[2]
	repoDir = a[1]
	idx, _ := strconv.Atoi(a[3])
	secs, _ := strconv.Atoi(a[4])
	dl, _ := strconv.Atoi(a[5])
	pool.sem = make(chan struct{}, 4)
	scratch, err := os.MkdirTemp("", "govc-"+prop)
	if err != nil {
		return 2
	}
	defer os.RemoveAll(scratch)
	if prepScratch(scratch) != nil {
		return 2
	}
	D, err := loadDoc(verif, prop)
	if err != nil {
		return 2
	}
	driverFiles = D.drivers
	P, err := LoadProgram(scratch, D.pkgs)
	if err != nil || D.resolveTypes(P) != nil {
		return 2
	}
	runDeadline = time.Now().Add(time.Duration(dl) * time.Second)
	unitLimit = 200 * time.Second
	u := runUnit(P, D, D.funcs[idx], 0)
	proveAll(u.obls, time.Duration(secs)*time.Second)
	o := unitOut{Name: u.name, Aborted: u.aborted, Exits: u.ex.exits, Steps: u.ex.steps, Wall: u.wall,
		Inlined: keysOf(u.ex.inlined), Externs: keysOf(u.ex.externs), Notes: keysOf(u.ex.notes)}
	for _, b := range u.obls {
		x := oblOut{Label: b.label, Kind: b.kind, Pos: b.pos, Res: int(b.res.res), Backend: b.res.backend, Ms: b.res.ms}
		if b.res.res != Unsat {
			x.Trail, x.Impre, x.Info, x.Qry = b.trail, b.impre, b.res.info, b.res.query
			for _, h := range b.hyps {
				x.Hyps = append(x.Hyps, h.String())
			}
			x.Goal = b.goal.String()
		}
		o.Obls = append(o.Obls, x)
	}
	json.NewEncoder(os.Stdout).Encode(o)
	return 0
}

func (R *Report) parallelUnits(P *Program, timeout time.Duration, verbose bool) {
	D := R.D
	res := make([]*UnitResult, len(D.funcs))
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, s := range D.funcs {
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			left := int(time.Until(runDeadline).Seconds())
			r := &UnitResult{name: D.unitName(s), spec: s, ex: &Exec{inlined: map[string]bool{}, externs: map[string]bool{}, notes: map[string]bool{}}}
			res[i] = r
			cmd := exec.Command(os.Args[0], "unit", R.verif, repoDir, R.prop, strconv.Itoa(i), strconv.Itoa(int(timeout.Seconds())), strconv.Itoa(left))
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			var o unitOut
			if err == nil {
				lines := strings.Split(strings.TrimSpace(string(b)), "\n")
				err = json.Unmarshal([]byte(lines[len(lines)-1]), &o)
			}
			if err != nil {
				r.aborted = fmt.Sprintf("the verifier process failed: %v", err)
				return
			}
			r.aborted, r.wall = o.Aborted, o.Wall
			r.ex.exits, r.ex.steps = o.Exits, o.Steps
			for _, k := range o.Inlined {
				r.ex.inlined[k] = true
			}
			for _, k := range o.Externs {
				r.ex.externs[k] = true
			}
			for _, k := range o.Notes {
				r.ex.notes[k] = true
			}
			for _, x := range o.Obls {
				r.obls = append(r.obls, &Obl{unit: o.Name, label: x.Label, kind: x.Kind, pos: x.Pos, trail: x.Trail, impre: x.Impre, remote: true, hypText: x.Hyps, goalText: x.Goal,
					res: ProofResult{res: Result(x.Res), backend: x.Backend, info: x.Info, query: x.Qry, ms: x.Ms}})
			}
		}()
	}
	wg.Wait()
	for _, r := range res {
		R.units = append(R.units, r)
		if verbose {
			fmt.Printf("unit %s: %d obligations, %d exits, %d steps, %.2fs %s\n", r.name, len(r.obls), r.ex.exits, r.ex.steps, r.wall, r.aborted)
		}
	}
}
