package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

)

type report struct {
	id, tier     string
	seed         int
	loadS        float64
	st           *Stats
	harness      []*harnessResult
	explorations []*Exploration
	cross        *crossStats
}

type finding struct{ prop, harness, kind, msg, what string }

// knownFindings reads the committed list; "fixed:" lines suppress nothing.
func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(strings.TrimPrefix(l, "finding: ")), &struct {
			P *string `json:"property"`
			H *string `json:"harness"`
			K *string `json:"kind"`
			M *string `json:"msg"`
			W *string `json:"what"`
		}{&f.prop, &f.harness, &f.kind, &f.msg, &f.what}) == nil && f.prop != "" && f.harness != "" && f.msg != "" {
			out = append(out, f)
		}
	}
	return out
}

func (f finding) matches(id string, v *Violation) bool {
	return f.prop == id && f.harness == v.Harness && f.kind == v.Kind && f.msg == v.Msg
}

type replayDoc struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Inputs   map[string]uint64 `json:"inputs"`
	Observed []string          `json:"observed,omitempty"`
	Native   string            `json:"native_outcome"`
	Confirm  string            `json:"confirmed"`
	Stack    string            `json:"stack,omitempty"`
	Schedule []string          `json:"schedule,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
	Decs     []uint64          `json:"decisions"`
	Tier     int               `json:"tier"`
	Replay   string            `json:"replay_with"`
}

func hasSched(decs []Dec) bool {
	for _, d := range decs {
		if d.kind == 's' && d.val != 0 {
			return true
		}
	}
	return false
}

const tooLong = "not run: it takes longer than a native run can wait"

// confirm runs the counterexample against the native build.
func (nb *nativeBuild) confirm(v *Violation, tier int) (bool, string, string) {
	j := []job{{v.Harness, v.Inputs}}
	tries := 1
	if hasSched(v.Decs) {
		tries = 12
	}
	per := 25 * time.Second
	bin := nb.bin
	if v.Kind == "race" {
		b, err := nb.race()
		if err != nil {
			return false, err.Error(), ""
		}
		bin = b
		tries = 60
	}
	if v.Kind == "hang" {
		per = 12 * time.Second
	}
	most := 60 * time.Second
	if v.Elapsed > 0 { // it waits for real time
		per += min(time.Duration(v.Elapsed)*5/4, 240*time.Second)
		most += min(time.Duration(v.Elapsed)*5/4, 240*time.Second)
	}
	if v.Elapsed > int64(5*time.Minute) && v.Kind != "hang" && v.Kind != "deadlock" {
		return false, tooLong, ""
	}
	last := ""
	end := time.Now().Add(most)
	for i := 0; i < tries && time.Now().Before(end); i++ {
		r := nb.runJobs(bin, j, tier, per, per+5*time.Second)[0]
		last = r.Outcome
		ok := false
		switch v.Kind {
		case "assert", "panic", "alloc":
			ok = strings.HasPrefix(r.Outcome, "assert:") || strings.HasPrefix(r.Outcome, "alloc:") || strings.HasPrefix(r.Outcome, "panic:") || strings.HasPrefix(r.Outcome, "fatal error:") || strings.HasPrefix(r.Outcome, "runtime: out of memory") || r.Outcome == "exit"
			if v.Kind == "panic" && r.Outcome == "timeout" && strings.Contains(v.Msg, "stack overflow") {
				ok = true
			}
		case "hang", "deadlock":
			ok = r.Outcome == "timeout" || strings.HasPrefix(r.Outcome, "fatal error:") || strings.HasPrefix(r.Outcome, "runtime: out of memory")
			ok = ok || strings.HasPrefix(r.Outcome, "assert:") || strings.HasPrefix(r.Outcome, "panic:")
		case "race":
			ok = strings.Contains(r.Outcome, "DATA RACE") || strings.HasPrefix(r.Outcome, "fatal error: concurrent map")
		}
		if ok {
			return true, r.Outcome, r.Stderr
		}
	}
	return false, last, ""
}

func (rep *report) finish(t0 time.Time, viols []*Violation, nb *nativeBuild, dev bool) int {
	tier := 0
	if rep.tier == "thorough" {
		tier = 1
	}
	exploreS := time.Since(t0).Seconds()
	nerr := nb.wait()
	if nerr != nil {
		logf("%v", nerr)
		return 2
	}
	known := knownFindings()
	var reported, suppressed []*Violation
	var unconfirmed []string
	evdir := filepath.Join(verifDir, "evidence")
	repdir := filepath.Join(evdir, "replay")
	os.MkdirAll(repdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repdir, rep.id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	type cres struct {
		ok         bool
		out, extra string
	}
	crs := make([]cres, len(viols))
	for i, v := range viols {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			var c cres
			c.ok, c.out, c.extra = nb.confirm(v, tier)
			mu.Lock()
			crs[i] = c
			mu.Unlock()
		}()
	}
	wg.Wait()
	type line struct{ v, path string }
	var lines []line
	seenKnown := map[string]bool{}
	nrep := 0
	for i, v := range viols {
		c := crs[i]
		conf := "native: " + c.out
		if c.out == tooLong && rep.reexecute(v, tier) {
			c.ok = true
			conf = "re-executed by the interpreter, on its clock (" + c.out + ")"
		}
		if !c.ok && (v.Threads && (v.Kind == "assert" || v.Kind == "deadlock" || v.Kind == "panic" || v.Kind == "hang")) && hasSched(v.Decs) {
			// a schedule: the deterministic interpreter reproduces it, the operating system's scheduler need not
			if c.out == "ok" && rep.everySchedule(v, tier) {
				// it would have had to show natively: the model misrepresents something
				c.out = "ok, although no schedule avoids it in the model"
			} else if rep.reexecute(v, tier) {
				c.ok = true
				conf = "re-executed under the recorded schedule (native stress runs did not hit that schedule: " + c.out + ")"
			}
		}
		if !c.ok {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s %s (native outcome %q) inputs %v", v.Harness, v.Kind, v.Msg, c.out, v.Inputs))
			if dev {
				logf("NOT CONFIRMED: %s\n%s\n%s", unconfirmed[len(unconfirmed)-1], v.Stack, strings.Join(v.Sched, "\n"))
			}
			continue
		}
		v.Confirm = conf
		isKnown := false
		for _, f := range known {
			if f.matches(rep.id, v) {
				isKnown = true
				if !seenKnown[f.harness+f.msg] {
					seenKnown[f.harness+f.msg] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", rep.id, f.what)
				}
			}
		}
		if isKnown {
			suppressed = append(suppressed, v)
			continue
		}
		nrep++
		path := filepath.Join(repdir, fmt.Sprintf("%s-%d.json", rep.id, nrep))
		d := replayDoc{rep.id, v.Harness, v.Kind, v.Msg, v.Inputs, v.Obs, c.out, conf, v.Stack, v.Sched, v.Trace, v.Seq, tier, "./check.sh replay " + path}
		b, _ := json.MarshalIndent(d, "", " ")
		os.WriteFile(path, b, 0o644)
		reported = append(reported, v)
		lines = append(lines, line{fmt.Sprintf("%s: %s: %s\n  inputs %v\n  %s\n%s", v.Harness, v.Kind, v.Msg, v.Inputs, conf, indent(v.Stack)), path})
	}
	// validate sampled paths against the native build
	checked, agree, mism := rep.validate(nb, tier)
	for _, m := range mism {
		logf("MODEL MISMATCH %s", m)
	}
	for _, u := range unconfirmed {
		logf("not reproduced, not reported: %s", u)
	}
	for _, l := range lines {
		fmt.Println(l.v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.id, l.path)
	}
	rep.evidence(t0, exploreS, checked, agree, mism, unconfirmed, reported, suppressed)
	if len(reported) > 0 {
		return 1
	}
	okPaths := int64(0)
	for _, h := range rep.harness {
		okPaths += h.Outcomes["ok"]
	}
	if okPaths == 0 {
		logf("no path of %s was decided", rep.id)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs\n", rep.id, rep.tier, time.Since(t0).Seconds())
	return 0
}

func indent(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 14 {
		l = l[:14]
	}
	return "    " + strings.Join(l, "\n    ")
}

// reexecute runs exactly the recorded decisions again.
func (rep *report) reexecute(v *Violation, tier int) bool {
	for _, e := range rep.explorations {
		if e.name != v.Harness {
			continue
		}
		st := &Stats{}
		w, err := newWorker(st, newQCache(), 15000)
		if err != nil {
			return false
		}
		defer w.sol.close()
		e2 := newExploration(e.prog, e.fn, e.name, e.lim, st, w.sol.cache)
		e2.tier = tier
		e2.lim.Deadline = time.Now().Add(30 * time.Second)
		e2.lim.MaxPaths = 1
		w.e = e2
		m := Model{}
		for k, x := range v.Inputs {
			m[k] = x
		}
		w.runPath(Item{model: m, prefix: v.Decs})
		return len(e2.viols) > 0
	}
	return false
}

// everySchedule: with the inputs of the violation, no schedule within the bounds ends without one.
func (rep *report) everySchedule(v *Violation, tier int) bool {
	for _, e := range rep.explorations {
		if e.name != v.Harness {
			continue
		}
		st := &Stats{}
		w, err := newWorker(st, newQCache(), 15000)
		if err != nil {
			return false
		}
		defer w.sol.close()
		e2 := newExploration(e.prog, e.fn, e.name, e.lim, st, w.sol.cache)
		e2.tier = tier
		e2.fixed = v.Inputs
		w.e = e2
		e2.stack = []Item{{}}
		end := time.Now().Add(20 * time.Second)
		e2.lim.Deadline = end
		for {
			it, ok := e2.pop()
			if !ok {
				return len(e2.incompl) == 0 && !time.Now().After(end)
			}
			w.runPath(it)
			e2.done()
			if e2.pathsByOutcome["ok"] > 0 {
				return false
			}
		}
	}
	return false
}

func (rep *report) validate(nb *nativeBuild, tier int) (checked, agree int, mism []string) {
	var jobs []job
	var want []PathSample
	var thr []bool
	for _, e := range rep.explorations {
		for _, s := range e.samples {
			if s.Sched {
				continue
			}
			jobs = append(jobs, job{e.name, s.Inputs})
			want = append(want, s)
			thr = append(thr, s.Sched)
		}
	}
	if len(jobs) == 0 {
		return
	}
	// in parallel chunks: some harnesses wait for real timeouts
	n := 24
	total := 30 * time.Second
	if tier > 0 {
		total = 120 * time.Second
	}
	res := make([]jobRes, len(jobs))
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		var idx []int
		var js []job
		for i := k; i < len(jobs); i += n {
			idx = append(idx, i)
			js = append(js, jobs[i])
		}
		if len(js) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs := nb.runJobs(nb.bin, js, tier, 20*time.Second, total)
			for j, r := range rs {
				res[idx[j]] = r
			}
		}()
	}
	wg.Wait()
	for i, r := range res {
		if r.Outcome == "" || thr[i] {
			continue
		}
		checked++
		w := want[i]
		oc := r.Outcome
		if strings.HasPrefix(oc, "panic: ") && strings.HasPrefix(w.Outcome, "panic: ") {
			oc = w.Outcome
		}
		if oc == w.Outcome && strings.Join(r.Obs, "\n") == strings.Join(w.Obs, "\n") {
			agree++
			continue
		}
		if len(mism) < 10 {
			mism = append(mism, fmt.Sprintf("%s inputs %v: engine %s %v, native %s %v", jobs[i].H, jobs[i].In, w.Outcome, w.Obs, r.Outcome, r.Obs))
		}
	}
	return
}

func (rep *report) evidence(t0 time.Time, exploreS float64, checked, agree int, mism, unconf []string, viols, supp []*Violation) {
	var states, trans, asserts, aq, au int64
	funcs := map[string]bool{}
	exhaustive := true
	var samples []any
	var inc []string
	bounds := map[string]int64{}
	for i, h := range rep.harness {
		states += h.Decisions + h.Paths
		trans += h.Steps
		asserts += h.Asserts
		aq += h.AssertQ
		au += h.AssertU
		for k, v := range h.Bounds {
			bounds[h.Name+"."+k] = v
		}
		for _, x := range h.Incompl {
			inc = append(inc, h.Name+": "+x)
		}
		if len(h.Incompl) > 0 {
			exhaustive = false
		}
		e := rep.explorations[i]
		e.funcs.Range(func(k, _ any) bool {
			f := k.(*cfn).fn
			pk := ""
			for q := f; q != nil; q = q.Parent() {
				if q.Pkg != nil {
					pk = q.Pkg.Pkg.Path()
				}
			}
			if inModule(pk) && !inHarness(pk) {
				funcs[strings.ReplaceAll(f.String(), modPath+"/", "")] = true
			}
			return true
		})
		for j, s := range e.samples {
			if j < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": s.Inputs, "outcome": s.Outcome, "observed": s.Obs})
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var vl []any
	for _, v := range viols {
		vl = append(vl, map[string]any{"harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "inputs": v.Inputs, "confirmed": v.Confirm})
	}
	st := rep.st
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": agree, "samples": samples,
		"states_are":                   "symbolic states: decision points plus completed paths; each stands for all inputs satisfying its path condition",
		"transitions_are":              "SSA instructions interpreted symbolically",
		"traces_compared_with_native":  checked,
		"native_disagreements":         mism,
		"functions_encoded":            fl,
		"bounds":                       bounds,
		"harnesses":                    rep.harness,
		"solver":                       "z3 (incremental, one process per worker)",
		"solver_queries":               st.Queries.Load(),
		"solver_query_cache_hits":      st.CacheHits.Load(),
		"solver_sat":                   st.SatN.Load(),
		"solver_unsat":                 st.UnsatN.Load(),
		"solver_unknown":               st.UnknownN.Load(),
		"solver_seconds":               float64(st.SolverNs.Load()) / 1e9,
		"assertions_evaluated":         asserts,
		"assertion_queries":            aq,
		"assertion_queries_discharged": au,
		"exhaustive":                   exhaustive,
		"incomplete":                   inc,
		"not_reproduced":               unconf,
		"load_s":                       rep.loadS,
		"explore_s":                    exploreS,
		"violations_found":             vl,
		"known_findings_seen":          len(supp),
	}
	if rep.cross != nil {
		cov["second_solver"] = rep.cross
	}
	ev := map[string]any{
		"property": rep.id, "tier": rep.tier, "seed": rep.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(), "wall_s": time.Since(t0).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", rep.id+".json"), b, 0o644)
}

func assumptions() []string {
	return []string{
		"holds for all values within the stated bounds only (sizes, choices, steps, preemptions and early timers listed under bounds and harnesses)",
		"go/ssa of golang.org/x/tools represents the source faithfully; the interpreter of that form and its models of fmt, encoding/binary, reflect, sync, time, channels and the Go scheduler are validated by running sampled paths natively (traces_validated_against_impl)",
		"logging (logrus, log) is modelled as having no effect apart from Fatal and Panic",
		"memory accesses are sequentially consistent unless a harness asks for data race detection",
		"z3 answers are trusted; every reported violation is replayed on the native build",
	}
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		logf("%v", err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		logf("%v", err)
		return 2
	}
	nb := startNativeBuild(d.Property)
	defer nb.cleanup()
	if err := nb.wait(); err != nil {
		logf("%v", err)
		return 2
	}
	v := &Violation{Harness: d.Harness, Kind: d.Kind, Msg: d.Msg, Inputs: d.Inputs}
	for _, s := range d.Decs {
		v.Decs = append(v.Decs, Dec{byte(s >> 56), s & (1<<56 - 1)})
	}
	os.Setenv("SYM_STACK", "1")
	ok, out, extra := nb.confirm(v, d.Tier)
	fmt.Printf("%s %s: %s\nrecorded: %s %s\nnative outcome: %s\n%s\n", d.Property, d.Harness, fmt.Sprint(d.Inputs), d.Kind, d.Msg, out, extra)
	if !ok && hasSched(v.Decs) {
		p, err := loadProgram(harnessPkg(d.Property))
		if err != nil {
			logf("%v", err)
			return 2
		}
		for _, h := range harnesses(p, d.Property) {
			if h.Name() == d.Harness {
				rep := &report{id: d.Property}
				rep.explorations = []*Exploration{newExploration(p, h, h.Name(), defaultLimits(), &Stats{}, newQCache())}
				ok = rep.reexecute(v, d.Tier)
				fmt.Printf("re-executed under the recorded schedule: violation=%v\n%s\n", ok, strings.Join(d.Schedule, "\n"))
			}
		}
	}
	if ok {
		return 1
	}
	return 0
}

type crossStats struct {
	Solver   string `json:"solver"`
	Compared int64  `json:"queries_compared"`
	Agree    int64  `json:"agree"`
	Disagree int64  `json:"disagree"`
	NoAnswer int64  `json:"no_answer"`
}
