package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Sat int

const (
	Unsat Sat = iota
	SatYes
	Unknown
)

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	emitted map[*T]bool
	nemit   int
	bin     []string
	st      *Stats
	cache   *QCache
	dump    *strings.Builder
}

type Stats struct {
	Queries, CacheHits, SatN, UnsatN, UnknownN atomic.Int64
	SolverNs                                   atomic.Int64
	Paths, Steps, Branches, Forks, Asserts     atomic.Int64
	AssertQ, AssertUnsat, Pruned, Switches     atomic.Int64
	Infeasible                                 atomic.Int64
}

type qres struct {
	s Sat
	m Model
}
type QCache struct {
	mu sync.Mutex
	m  map[[2]uint64]qres
}

func newQCache() *QCache { return &QCache{m: map[[2]uint64]qres{}} }

func (q *QCache) clear() {
	q.mu.Lock()
	q.m = map[[2]uint64]qres{}
	q.mu.Unlock()
}

func newSolver(c *Ctx, st *Stats, cache *QCache, timeoutMs int) (*Solver, error) {
	s := &Solver{c: c, st: st, cache: cache, bin: []string{"z3", "-in", "-t:" + strconv.Itoa(timeoutMs)}}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[*T]bool{}
	s.nemit = 0
	fmt.Fprintln(s.in, "(set-option :print-success false)")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) ref(t *T) string {
	switch t.op {
	case OConst:
		return smtConst(t.k, t.w)
	case OVar:
		return smtVar(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) emit(t *T) {
	if t.op == OConst || s.emitted[t] {
		return
	}
	s.emitted[t] = true
	s.nemit++
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", smtVar(t.name), sortOf(t.w))
		return
	}
	for _, a := range t.args {
		s.emit(a)
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), t.body(s.ref))
}

// check decides the conjunction of cs. When sat returns a model for the variables involved.
func (s *Solver) check(cs []*T) (Sat, Model) {
	// quick: constants
	var h1, h2 uint64
	live := cs[:0:0]
	for _, t := range cs {
		if t.isConst() {
			if t.k == 0 {
				return Unsat, nil
			}
			continue
		}
		live = append(live, t)
		h1 += mix(t.hash, 0x1234567)
		h2 ^= mix(t.hash, 0xabcdef987)
	}
	if len(live) == 0 {
		return SatYes, Model{}
	}
	key := [2]uint64{h1, h2}
	s.cache.mu.Lock()
	r, ok := s.cache.m[key]
	s.cache.mu.Unlock()
	if ok {
		s.st.CacheHits.Add(1)
		return r.s, r.m
	}
	sat, m := s.query(live)
	if sat != Unknown {
		s.cache.mu.Lock()
		if len(s.cache.m) > 2000000 {
			s.cache.m = map[[2]uint64]qres{}
		}
		s.cache.m[key] = qres{sat, m}
		s.cache.mu.Unlock()
	}
	return sat, m
}

func (s *Solver) query(live []*T) (Sat, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.st.SolverNs.Add(int64(d))
		if verbose && d > time.Second {
			logf("slow query: %v, %d assertions", d, len(live))
			for _, t := range live {
				logf("  %.600s", t.String())
			}
		}
	}()
	s.st.Queries.Add(1)
	if s.nemit > 200000 {
		s.close()
		if err := s.start(); err != nil {
			s.st.UnknownN.Add(1)
			return Unknown, nil
		}
	}
	var vars []int32
	for _, t := range live {
		s.emit(t)
		vars = mergeVars(vars, t.vars)
	}
	s.in.WriteString("(push)\n")
	for _, t := range live {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(t))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.restart()
		s.st.UnknownN.Add(1)
		return Unknown, nil
	}
	res := Unknown
	var m Model
	switch line {
	case "sat":
		res = SatYes
		s.st.SatN.Add(1)
		m = Model{}
		if len(vars) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range vars {
				s.in.WriteString(smtVar(s.c.varList[v].name))
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.restart()
				return Unknown, nil
			}
			parseModel(txt, m)
		}
	case "unsat":
		res = Unsat
		s.st.UnsatN.Add(1)
	default:
		s.st.UnknownN.Add(1)
		if strings.HasPrefix(line, "(error") {
			logf("solver error: %s", line)
			s.restart()
			return Unknown, nil
		}
	}
	s.in.WriteString("(pop)\n")
	return res, m
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parses ((|x| #x00) (|y| true) (z (_ bv3 8)))
func parseModel(txt string, m Model) {
	i := 1
	n := len(txt)
	for i < n {
		for i < n && txt[i] != '(' {
			i++
		}
		if i >= n {
			return
		}
		i++
		for i < n && (txt[i] == ' ' || txt[i] == '\n') {
			i++
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := strings.IndexAny(txt[i:], " \n")
			name = txt[i : i+j]
			i += j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		var val uint64
		switch {
		case strings.HasPrefix(txt[i:], "#x"):
			j := strings.IndexByte(txt[i:], ')')
			val, _ = strconv.ParseUint(strings.TrimSpace(txt[i+2:i+j]), 16, 64)
			i += j + 1
		case strings.HasPrefix(txt[i:], "#b"):
			j := strings.IndexByte(txt[i:], ')')
			val, _ = strconv.ParseUint(strings.TrimSpace(txt[i+2:i+j]), 2, 64)
			i += j + 1
		case strings.HasPrefix(txt[i:], "true"):
			val = 1
			i += 5
		case strings.HasPrefix(txt[i:], "false"):
			i += 6
		case strings.HasPrefix(txt[i:], "(_ bv"):
			j := strings.IndexByte(txt[i+5:], ' ')
			val, _ = strconv.ParseUint(txt[i+5:i+5+j], 10, 64)
			k := strings.Index(txt[i:], "))")
			i += k + 2
		default:
			logf("cannot parse model at %q", txt[i:min(n, i+40)])
			return
		}
		m[name] = val
	}
}

func sortedKeys(m Model) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
