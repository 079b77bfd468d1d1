package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check ID | run ID [HARNESS...] | replay FILE | list ID")
	os.Exit(2)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func main() {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		usage()
	}
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	id := os.Args[2]
	switch os.Args[1] {
	case "check":
		rc := runCheck(id, nil, false)
		cleanInPackage()
		os.Exit(rc)
	case "run":
		rc := runCheck(id, os.Args[3:], true)
		pprof.StopCPUProfile()
		cleanInPackage()
		os.Exit(rc)
	case "replay":
		rc := replayFile(id)
		cleanInPackage()
		os.Exit(rc)
	case "list":
		p, err := loadProgram(harnessPkg(id))
		if err != nil {
			logf("%v", err)
			os.Exit(2)
		}
		for _, h := range harnesses(p, id) {
			fmt.Println(h.Name())
		}
	default:
		usage()
	}
}

func harnessPkg(id string) string { return zz + "/" + strings.ToLower(id) }

// harnesses lists the exported functions without parameters and results of the property's package.
func harnesses(p *Program, id string) []*ssa.Function {
	sp := p.pkgs[harnessPkg(id)]
	if sp == nil {
		return nil
	}
	p.build(sp)
	var fs []*ssa.Function
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	return fs
}

type harnessResult struct {
	Name      string           `json:"harness"`
	Paths     int64            `json:"paths"`
	Steps     int64            `json:"instructions"`
	Decisions int64            `json:"decision_points"`
	Asserts   int64            `json:"assertions_evaluated"`
	AssertQ   int64            `json:"assertion_queries"`
	AssertU   int64            `json:"assertion_queries_unsat"`
	Outcomes  map[string]int64 `json:"paths_by_outcome"`
	Bounds    map[string]int64 `json:"bounds"`
	Reach     map[string]int64 `json:"reached"`
	MaxSteps  int64            `json:"longest_path_instructions"`
	MaxDecs   int64            `json:"longest_path_decisions"`
	Incompl   []string         `json:"incomplete,omitempty"`
	Wall      float64          `json:"wall_s"`
	Switches  int64            `json:"context_switches"`
	Threads   bool             `json:"concurrent"`
	Preempt   int              `json:"preemption_bound"`
	Timers    int              `json:"early_timer_bound"`
}

func runCheck(id string, only []string, dev bool) int {
	t0 := time.Now()
	tier := 0
	tierName := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier, tierName = 1, "thorough"
	}
	seed := envInt("VERIF_SEED", 1)
	nb := startNativeBuild(id)
	defer nb.cleanup()
	p, err := loadProgram(harnessPkg(id))
	if err != nil {
		logf("%v", err)
		return 2
	}
	hs := harnesses(p, id)
	if len(only) > 0 {
		var l []*ssa.Function
		for _, h := range hs {
			for _, o := range only {
				if strings.Contains(h.Name(), o) {
					l = append(l, h)
					break
				}
			}
		}
		hs = l
	}
	if len(hs) == 0 {
		logf("no harness for %s", id)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	budget := time.Duration(envInt("GOSYM_BUDGET", []int{240, 780}[tier])) * time.Second
	deadline := t0.Add(budget)
	nw := envInt("GOSYM_WORKERS", min(8, runtime.NumCPU()))
	st := &Stats{}
	cache := newQCache()
	var workers []*Worker
	for i := 0; i < nw; i++ {
		w, err := newWorker(st, cache, []int{15000, 60000}[tier])
		if err != nil {
			logf("cannot start the solver: %v", err)
			return 2
		}
		workers = append(workers, w)
		defer w.sol.close()
	}
	rep := &report{id: id, tier: tierName, seed: seed, loadS: loadS, st: st}
	var viols []*Violation
	for i, h := range hs {
		hst := *snap(st)
		ht := time.Now()
		lim := defaultLimits()
		// share what is left of the budget
		left := time.Until(deadline)
		lim.Deadline = time.Now().Add(max(left*2/time.Duration(len(hs)-i+1), 5*time.Second))
		e := newExploration(p, h, h.Name(), lim, st, cache)
		e.tier = tier
		e.rng ^= uint64(seed) * 0x9E3779B97F4A7C15
		if i > 0 {
			for _, w := range workers {
				w.reset()
			}
			cache.clear()
		}
		e.run(nw, workers)
		s2 := snap(st)
		hr := &harnessResult{Name: h.Name(), Paths: s2.Paths - hst.Paths, Steps: s2.Steps - hst.Steps, Decisions: s2.Branches - hst.Branches,
			Asserts: s2.Asserts - hst.Asserts, AssertQ: s2.AssertQ - hst.AssertQ, AssertU: s2.AssertUnsat - hst.AssertUnsat, Outcomes: e.pathsByOutcome,
			Bounds: e.bounds, Reach: e.reach, MaxSteps: e.maxStepsSeen.Load(), MaxDecs: e.maxDecSeen.Load(), Incompl: e.incompleteList(), Wall: time.Since(ht).Seconds(),
			Switches: s2.Switches - hst.Switches, Threads: e.threads.Load(), Preempt: e.lim.Preempt, Timers: e.lim.TimerEarly}
		for _, l := range reachLabels(p, h) {
			if e.reach[l] == 0 && len(e.viols) == 0 {
				hr.Incompl = append(hr.Incompl, "vacuity: place '"+l+"' was not reached")
			}
		}
		rep.harness = append(rep.harness, hr)
		rep.explorations = append(rep.explorations, e)
		viols = append(viols, e.viols...)
		if l := time.Now().Add(afterViolation); len(e.viols) > 0 && l.Before(deadline) {
			deadline = l
		}
		logf("%s: %d paths, %d decisions, %d instructions, %d/%d assertion queries, %.1fs, outcomes %v%s", h.Name(), hr.Paths, hr.Decisions, hr.Steps, hr.AssertU, hr.AssertQ, hr.Wall, e.pathsByOutcome, incTxt(hr.Incompl))
		if dev {
			for k, v := range e.bounds {
				logf("   bound %s = %d", k, v)
			}
			for k, v := range e.reach {
				logf("   reached %s: %d", k, v)
			}
		}
	}
	for _, w := range workers {
		w.sol.close()
	}
	return rep.finish(t0, viols, nb, dev)
}

func incTxt(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return "\n   incomplete: " + strings.Join(l, "\n   incomplete: ")
}

type statSnap struct {
	Paths, Steps, Branches, Asserts, AssertQ, AssertUnsat, Switches int64
}

func snap(s *Stats) *statSnap {
	return &statSnap{s.Paths.Load(), s.Steps.Load(), s.Branches.Load(), s.Asserts.Load(), s.AssertQ.Load(), s.AssertUnsat.Load(), s.Switches.Load()}
}

// reachLabels collects the labels of sym.Reach calls in h and the harness functions it calls directly.
func reachLabels(p *Program, h *ssa.Function) []string {
	var out []string
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f == nil {
			return
		}
		seen[f] = true
		if f.Pkg == nil && f.Parent() == nil {
			return
		}
		pk := f.Pkg
		for q := f; pk == nil && q != nil; q = q.Parent() {
			pk = q.Pkg
		}
		if pk == nil || pk.Pkg.Path() != h.Pkg.Pkg.Path() {
			return
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				if callee.Name() == "Reach" && callee.Pkg != nil && callee.Pkg.Pkg.Path() == zz+"/sym" {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						out = append(out, constStr(k))
					}
					continue
				}
				visit(callee)
			}
		}
	}
	visit(h)
	return out
}

func defaultLimits() Limits {
	return Limits{MaxSteps: 3_000_000, MaxConc: 300, MaxDecs: 100000, BigAlloc: 1 << 20, Preempt: 0, TimerEarly: 0}
}

// build makes the SSA form of a package.
func (p *Program) build(sp *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	sp.Build()
}
