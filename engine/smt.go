package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (s SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[s] }

type SolverStats struct {
	queries, sat, unsat, unknown, errors, cached int64
	nanos                                        int64
	maxNanos                                     int64
}

var stats SolverStats

// Solver is one interactive z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	dead  bool
	lines chan string
}

func solverBin() string {
	if b := os.Getenv("VERIF_Z3"); b != "" {
		return b
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (s *Solver) start() error {
	s.cmd = exec.Command(solverBin(), "-in", "-smt2", "memory_max_size=3500")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.lines = make(chan string, 64)
	go func(out *bufio.Reader, ch chan string) {
		for {
			l, err := out.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}(s.out, s.lines)
	s.dead = false
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		go func(l chan string) {
			for range l {
			}
		}(s.lines)
		s.cmd.Wait()
	}
	s.cmd = nil
}

// kill ends the process only (from the watchdog).
func (s *Solver) kill() {
	if c := s.cmd; c != nil && c.Process != nil {
		c.Process.Kill()
	}
}

// run sends a script and reads the lines up to the end marker.
func (s *Solver) run(script string, timeout time.Duration) ([]string, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return nil, err
		}
	}
	done := make(chan error, 1)
	go func(w io.Writer) {
		_, err := io.WriteString(w, script+"\n(echo \"@@end\")\n")
		done <- err
	}(s.in)
	var out []string
	tm := time.NewTimer(timeout + 5*time.Second)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				s.stop()
				return out, fmt.Errorf("solver died")
			}
			if l == "@@end" || l == "\"@@end\"" {
				<-done
				return out, nil
			}
			out = append(out, l)
		case <-tm.C:
			s.stop()
			return out, fmt.Errorf("solver timeout")
		}
	}
}

var queryCache sync.Map // script -> answer
var cacheBytes int64

type answer struct {
	res   SatRes
	model string
}

// remember keeps the answer to a query; large texts are kept only while there is room.
func remember(key string, a answer) {
	n := int64(len(key) + len(a.model))
	if atomic.AddInt64(&cacheBytes, n) > 1<<30 {
		atomic.AddInt64(&cacheBytes, -n)
		return
	}
	queryCache.Store(key, a)
}

// Query decides the conjunction of the terms; with model, returns values for the given variables.
func (s *Solver) Query(tm *TermMgr, terms []*Term, timeoutMs int, want []*Term) (SatRes, map[int]string) {
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 24)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMs)
	declared := map[int]string{} // names are local to the query, so that equal queries have equal texts
	refs := tm.Print(&sb, terms, declared)
	for _, rf := range refs {
		fmt.Fprintf(&sb, "(assert %s)\n", rf)
	}
	for _, v := range want {
		if declared[v.id] == "" {
			declared[v.id] = fmt.Sprintf("v!%d", len(declared))
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", declared[v.id], sortSMT(v))
		}
	}
	sb.WriteString("(check-sat)\n")
	script := sb.String()
	key := script
	var gb strings.Builder
	if len(want) > 0 {
		gb.WriteString("(get-value (")
		for _, v := range want {
			gb.WriteString(declared[v.id] + " ")
		}
		gb.WriteString("))\n")
		key += gb.String()
	}
	if v, ok := queryCache.Load(key); ok {
		atomic.AddInt64(&stats.cached, 1)
		c := v.(answer)
		if c.res == Sat && len(want) > 0 {
			return Sat, parseValues(c.model, want, declared)
		}
		return c.res, nil
	}
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", d, n), []byte(script), 0o644)
	}
	t0 := time.Now()
	lines, err := s.run(script, time.Duration(timeoutMs)*time.Millisecond)
	el := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&stats.queries, 1)
	atomic.AddInt64(&stats.nanos, el)
	for {
		m := atomic.LoadInt64(&stats.maxNanos)
		if el <= m || atomic.CompareAndSwapInt64(&stats.maxNanos, m, el) {
			break
		}
	}
	res := Unknown
	if err == nil {
		for _, l := range lines {
			if strings.HasPrefix(l, "(error") {
				atomic.AddInt64(&stats.errors, 1)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SOLVER ERROR", l)
				}
				res = Unknown
				break
			}
			if l == "sat" {
				res = Sat
			}
			if l == "unsat" {
				res = Unsat
			}
		}
	}
	switch res {
	case Sat:
		atomic.AddInt64(&stats.sat, 1)
	case Unsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	if len(want) == 0 || res != Sat {
		if res != Unknown {
			remember(key, answer{res: res})
		}
		return res, nil
	}
	lines, err = s.run(gb.String(), 10*time.Second)
	if err != nil {
		return Unknown, nil
	}
	text := strings.Join(lines, " ")
	remember(key, answer{Sat, text})
	return Sat, parseValues(text, want, declared)
}

var dumpN int64

func parseValues(text string, want []*Term, names map[int]string) map[int]string {
	toks := tokenize(text)
	byName := map[string]*Term{}
	for _, v := range want {
		byName[names[v.id]] = v
	}
	out := map[int]string{}
	// (( |a| val ) ( |b| val ) ...)
	i := 0
	if i < len(toks) && toks[i] == "(" {
		i++
	}
	for i < len(toks) && toks[i] == "(" {
		i++
		if i >= len(toks) {
			break
		}
		name := strings.Trim(toks[i], "|")
		i++
		val, j := sexp(toks, i)
		i = j
		if v, ok := byName[name]; ok {
			out[v.id] = val
		}
		if i < len(toks) && toks[i] == ")" {
			i++
		}
	}
	return out
}

func sexp(toks []string, i int) (string, int) {
	if i >= len(toks) {
		return "", i
	}
	if toks[i] != "(" {
		return toks[i], i + 1
	}
	var parts []string
	i++
	for i < len(toks) && toks[i] != ")" {
		p, j := sexp(toks, i)
		parts = append(parts, p)
		i = j
	}
	return "(" + strings.Join(parts, " ") + ")", i + 1
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" ()\n\t|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// parseReal reads an SMT real value such as 0.5, (/ 1.0 3.0), (- 2.0), 1.4142?
func parseReal(s string) (*big.Rat, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		toks := tokenize(s)
		if len(toks) >= 4 && toks[1] == "-" {
			v, _ := sexp(toks, 2)
			r, ok := parseReal(v)
			if !ok {
				return nil, false
			}
			return new(big.Rat).Neg(r), true
		}
		if len(toks) >= 5 && toks[1] == "/" {
			v, j := sexp(toks, 2)
			w, _ := sexp(toks, j)
			a, ok1 := parseReal(v)
			b, ok2 := parseReal(w)
			if !ok1 || !ok2 || b.Sign() == 0 {
				return nil, false
			}
			return new(big.Rat).Quo(a, b), true
		}
		return nil, false
	}
	s = strings.TrimSuffix(s, "?")
	r, ok := new(big.Rat).SetString(s)
	return r, ok
}

func parseBV(s string) (uint64, bool) {
	var v uint64
	if strings.HasPrefix(s, "#x") {
		_, err := fmt.Sscanf(s[2:], "%x", &v)
		return v, err == nil
	}
	if strings.HasPrefix(s, "#b") {
		for _, c := range s[2:] {
			v = v<<1 | uint64(c-'0')
		}
		return v, true
	}
	if strings.HasPrefix(s, "(_ bv") {
		_, err := fmt.Sscanf(s, "(_ bv%d", &v)
		return v, err == nil
	}
	return 0, false
}
