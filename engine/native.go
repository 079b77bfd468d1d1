package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

func constStr(k *ssa.Const) string { return constant.StringVal(k.Value) }

// nativeBuild is the harness package compiled by the ordinary Go compiler against the current tree.
type nativeBuild struct {
	id   string
	dir  string
	bin  string
	err  error
	done chan struct{}

	raceOnce sync.Once
	raceBin  string
	raceErr  error
}

var fnRe = regexp.MustCompile(`(?m)^func ([A-Z]\w*)\(\) *\{`)

func startNativeBuild(id string) *nativeBuild {
	nb := &nativeBuild{id: id, done: make(chan struct{})}
	nb.dir, nb.err = os.MkdirTemp("", "gosym-")
	if nb.err != nil {
		close(nb.done)
		return nb
	}
	go func() {
		defer close(nb.done)
		nb.bin, nb.err = nb.build(false)
	}()
	return nb
}

func (nb *nativeBuild) cleanup() {
	<-nb.done
	if nb.dir != "" {
		os.RemoveAll(nb.dir)
	}
}

func (nb *nativeBuild) build(race bool) (string, error) {
	// the registry of harness functions
	hdir := filepath.Join(verifDir, "harness", strings.ToLower(nb.id))
	ents, err := os.ReadDir(hdir)
	if err != nil {
		return "", err
	}
	var names []string
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			b, _ := os.ReadFile(filepath.Join(hdir, e.Name()))
			for _, m := range fnRe.FindAllStringSubmatch(string(b), -1) {
				names = append(names, m[1])
			}
		}
	}
	pk := strings.ToLower(nb.id)
	var src strings.Builder
	fmt.Fprintf(&src, "package main\n\nimport (\n\t\"%s/sym\"\n\t\"%s/%s\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", zz, zz, pk)
	for _, n := range names {
		fmt.Fprintf(&src, "\t\t%q: %s.%s,\n", n, pk, n)
	}
	src.WriteString("\t})\n}\n")
	tag := ""
	if race {
		tag = "race"
	}
	mainFile := filepath.Join(nb.dir, "main"+tag+".go")
	if err := os.WriteFile(mainFile, []byte(src.String()), 0o644); err != nil {
		return "", err
	}
	ov := overlayFiles()
	ov[filepath.Join(repoDir, "zzverif", "run", "main.go")] = mainFile
	if race {
		nb.jitter(ov)
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(nb.dir, "overlay"+tag+".json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	out := filepath.Join(nb.dir, "runner"+tag)
	args := []string{"build", "-overlay", ovf, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, zz+"/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, o)
	}
	return out, nil
}

// jitter adds short pauses around the operations of mutexes to the build that looks for data
// races, so that more of the schedules in which two accesses are unordered do happen.
func (nb *nativeBuild) jitter(ov map[string]string) {
	o, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return
	}
	dir := filepath.Join(strings.TrimSpace(string(o)), "src", "sync")
	pauses := func(file string, edits ...string) bool {
		b, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			return false
		}
		s := string(b)
		for i := 0; i < len(edits); i += 2 {
			if strings.Count(s, edits[i]) != 1 {
				return false
			}
			s = strings.Replace(s, edits[i], edits[i]+edits[i+1], 1)
		}
		to := filepath.Join(nb.dir, "sync_"+file)
		if os.WriteFile(to, []byte(s), 0o644) != nil {
			return false
		}
		ov[filepath.Join(dir, file)] = to
		return true
	}
	a := pauses("mutex.go", "func (m *Mutex) Lock() {\n", "\tzzJitter()\n", "func (m *Mutex) Unlock() {\n", "\tdefer zzJitter()\n")
	b := pauses("rwmutex.go", "func (rw *RWMutex) Lock() {\n", "\tzzJitter()\n", "func (rw *RWMutex) Unlock() {\n", "\tdefer zzJitter()\n",
		"func (rw *RWMutex) RLock() {\n", "\tzzJitter()\n", "func (rw *RWMutex) RUnlock() {\n", "\tdefer zzJitter()\n")
	if !a && !b {
		return
	}
	to := filepath.Join(nb.dir, "sync_jitter.go")
	if os.WriteFile(to, []byte(`package sync

var zzState uint32

func zzJitter() {
	x := zzState*1664525 + 1013904223
	zzState = x
	if x>>30 == 0 {
		return
	}
	for i := uint32(0); i < x>>10&0x7fff; i++ {
		zzSpin()
	}
}

//go:noinline
func zzSpin() {}
`), 0o644) == nil {
		ov[filepath.Join(dir, "zz_jitter.go")] = to
	}
}

func (nb *nativeBuild) wait() error { <-nb.done; return nb.err }

func (nb *nativeBuild) race() (string, error) {
	nb.raceOnce.Do(func() { nb.raceBin, nb.raceErr = nb.build(true) })
	return nb.raceBin, nb.raceErr
}

type job struct {
	H  string            `json:"h"`
	In map[string]uint64 `json:"in"`
}

type jobRes struct {
	I       int      `json:"i"`
	Outcome string   `json:"outcome"`
	Obs     []string `json:"obs"`
	Missing []string `json:"missing"`
	Stderr  string   `json:"-"`
}

// runJobs executes jobs one after another in the native runner; a job that kills or hangs the
// process costs a restart.
func (nb *nativeBuild) runJobs(bin string, jobs []job, tier int, perJob time.Duration, total time.Duration) []jobRes {
	res := make([]jobRes, len(jobs))
	deadline := time.Now().Add(total)
	jf, _ := os.CreateTemp(nb.dir, "jobs")
	b, _ := json.Marshal(jobs)
	jf.Write(b)
	jf.Close()
	start := 0
	for start < len(jobs) {
		if time.Now().After(deadline) {
			break
		}
		n, crash := nb.runOnce(bin, jf.Name(), start, tier, perJob, deadline, res)
		if n >= len(jobs) {
			break
		}
		res[n].I = n
		res[n].Outcome = crash.Outcome
		res[n].Stderr = crash.Stderr
		start = n + 1
	}
	return res
}

// runOnce returns the index of the job that did not complete, len(jobs) if all did.
func (nb *nativeBuild) runOnce(bin, jf string, start, tier int, perJob time.Duration, deadline time.Time, res []jobRes) (int, jobRes) {
	rp, wp, err := os.Pipe()
	if err != nil {
		return start, jobRes{Outcome: "error: " + err.Error()}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// limit the address space, so that a runaway allocation ends the runner and nothing else
	limit := "6000000"
	if strings.HasSuffix(bin, "race") {
		limit = "unlimited"
	}
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -v `+limit+`; exec "$0" "$@"`, bin, jf, fmt.Sprint(start), fmt.Sprint(tier))
	cmd.ExtraFiles = []*os.File{wp}
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
	cmd.Dir = nb.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var se tailBuf
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		wp.Close()
		rp.Close()
		return start, jobRes{Outcome: "error: " + err.Error()}
	}
	wp.Close()
	lines := make(chan jobRes)
	go func() {
		sc := bufio.NewScanner(rp)
		sc.Buffer(make([]byte, 1<<16), 1<<26)
		for sc.Scan() {
			var r jobRes
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				lines <- r
			}
		}
		close(lines)
	}()
	next := start
	kill := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cancel()
		for range lines {
		}
		cmd.Wait()
		rp.Close()
	}
	for next < len(res) {
		d := perJob
		if l := time.Until(deadline); l < d {
			d = l
		}
		t := time.NewTimer(d)
		select {
		case r, ok := <-lines:
			t.Stop()
			if !ok {
				kill()
				return next, crashed(se.String())
			}
			res[r.I] = r
			next = r.I + 1
		case <-t.C:
			if d < perJob {
				kill()
				return next, jobRes{}
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
			time.Sleep(300 * time.Millisecond)
			kill()
			return next, jobRes{Outcome: "timeout", Stderr: se.String()}
		}
	}
	kill()
	return next, jobRes{}
}

type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<18 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

func crashed(se string) jobRes {
	o := "crash"
	for _, l := range strings.Split(se, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "runtime: out of memory") {
			o = l
			break
		}
	}
	return jobRes{Outcome: o, Stderr: se}
}
