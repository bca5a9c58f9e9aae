package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satResult uint8

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

type cachedResult struct {
	res   satResult
	model []uint64 // by canonical variable order
}

// SolverStats is shared between workers.
type SolverStats struct {
	Queries, CacheHits, Sat, Unsat, Unknown, Errors int64
	Nanos                                           int64
}

type solverShared struct {
	cache sync.Map // string -> *cachedResult
	stats SolverStats
}

// Solver is one z3 process, used by one worker.
type Solver struct {
	sh  *solverShared
	cmd *exec.Cmd
	in  *bufio.Writer
	inC io.WriteCloser
	out *bufio.Reader
	log *os.File
}

func solverArgv() []string {
	if s := os.Getenv("GOSYM_SOLVER"); s != "" {
		return strings.Fields(s)
	}
	return []string{"z3", "-in", "-t:20000"}
}

func NewSolver(sh *solverShared) *Solver {
	s := &Solver{sh: sh}
	s.start()
	return s
}

func (s *Solver) start() {
	argv := solverArgv()
	s.cmd = exec.Command(argv[0], argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fatalf("solver: %v", err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.in.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		sb.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

// Check decides the conjunction of cs. On sat it returns values for the variables occurring in cs.
func (s *Solver) Check(cs []*Term) (satResult, []*Term, []uint64) {
	body, vars := smtScript(cs)
	if v, ok := s.sh.cache.Load(body); ok {
		atomic.AddInt64(&s.sh.stats.CacheHits, 1)
		r := v.(*cachedResult)
		return r.res, vars, r.model
	}
	t0 := time.Now()
	r := s.query(body, len(vars))
	atomic.AddInt64(&s.sh.stats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&s.sh.stats.Queries, 1)
	switch r.res {
	case resSat:
		atomic.AddInt64(&s.sh.stats.Sat, 1)
	case resUnsat:
		atomic.AddInt64(&s.sh.stats.Unsat, 1)
	default:
		atomic.AddInt64(&s.sh.stats.Unknown, 1)
	}
	if r.res != resUnknown {
		s.sh.cache.Store(body, r)
	}
	return r.res, vars, r.model
}

func (s *Solver) query(body string, nvars int) *cachedResult {
	s.in.WriteString("(push 1)\n")
	s.in.WriteString(body)
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	ans, err := s.readSexp()
	if err != nil {
		atomic.AddInt64(&s.sh.stats.Errors, 1)
		s.Close()
		s.start()
		return &cachedResult{res: resUnknown}
	}
	ans = strings.TrimSpace(ans)
	res := &cachedResult{res: resUnknown}
	switch {
	case ans == "unsat":
		res.res = resUnsat
	case ans == "sat":
		res.res = resSat
		if nvars > 0 {
			s.in.WriteString("(get-value (")
			for i := 0; i < nvars; i++ {
				s.in.WriteString("v" + strconv.Itoa(i) + " ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			mv, err := s.readSexp()
			if err != nil {
				return &cachedResult{res: resUnknown}
			}
			res.model = make([]uint64, nvars)
			if !parseModel(mv, res.model) {
				fmt.Fprintln(os.Stderr, "gosym: cannot parse model:", mv)
				res.res = resUnknown
			}
		}
	case strings.Contains(ans, "error"):
		atomic.AddInt64(&s.sh.stats.Errors, 1)
		fmt.Fprintln(os.Stderr, "gosym: solver error:", ans, "\n", body)
	}
	s.in.WriteString("(pop 1)\n")
	return res
}

func parseModel(s string, model []uint64) bool {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s))
	n := 0
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if len(t) > 1 && t[0] == 'v' {
			idx, err := strconv.Atoi(t[1:])
			if err != nil || idx >= len(model) || i+1 >= len(toks) {
				return false
			}
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				model[idx], err = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				model[idx], err = strconv.ParseUint(v[2:], 2, 64)
			case v == "true":
				model[idx] = 1
			case v == "false":
				model[idx] = 0
			case v == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
				model[idx], err = strconv.ParseUint(toks[i+3][2:], 10, 64)
			default:
				return false
			}
			if err != nil {
				return false
			}
			n++
			i++
		}
	}
	return n == len(model)
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}
