package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type violation struct {
	Harness  string        `json:"harness"`
	Kind     string        `json:"kind"`
	Msg      string        `json:"msg"`
	Inputs   []replayInput `json:"inputs"`
	Where    string        `json:"where,omitempty"`
	MapOrder bool          `json:"map_order,omitempty"`
	Known    *knownFinding `json:"-"`
}

type sampleTrace struct {
	Inputs   []replayInput
	Observe  []string
	End      string
	MapOrder bool
}

type runStats struct {
	paths, assumePaths, branches, asserts, assertQueries, steps int64
	maxDepthSeen, maxStepsSeen                                  int64
}

type harnessRun struct {
	name string
	fn   *ssa.Function
	cfg  harnessCfg

	queue []*workItem   // under the explorer's lock
	busy  time.Duration // worker time used, likewise

	mu         sync.Mutex
	violations []violation
	vkeys      map[string]int
	inconcl    map[string]int
	covers     map[string]int
	samples    []sampleTrace
	cutoff     [][]replayInput // of paths the engine could not finish
	ncut       int64
	ends       map[string]int
	stats      runStats
	frames     map[string]bool
	exhausted  bool // all paths explored
	stopped    string
	pending    int64
	t0         time.Time
	wall       time.Duration
	nsample    int64
	declared   []string
	known      []*knownFinding
	unknown    int // violations not matching a known finding
	dropped    int // queued paths given up
}

type harnessCfg struct {
	maxSteps int64
	maxDepth int
	maxPaths int64
	timeout  time.Duration
}

func (ip *Interp) recordViolation(kind, msg string, m []uint64) {
	h := ip.h
	for i, t := range ip.pc {
		if ip.tc.Eval(t, m) != 1 {
			h.mu.Lock()
			h.inconcl[fmt.Sprintf("internal: the model of a violation does not satisfy path condition %d of %d: %s", i, len(ip.pc), oneTerm(t))]++
			h.mu.Unlock()
			return
		}
	}
	where := ""
	if ip.curFn != nil {
		where = ip.curFn.name
	}
	h.record(violation{Harness: h.name, Kind: kind, Msg: msg, Inputs: ip.replayInputs(m), Where: where, MapOrder: ip.mapUsed})
}

func (h *harnessRun) record(v violation) {
	h.mu.Lock()
	defer h.mu.Unlock()
	kind, msg := v.Kind, v.Msg
	key := kind + "|" + msg
	if len(key) > 80 {
		key = key[:80]
	}
	for _, k := range h.known {
		if (k.Harness == "" || k.Harness == h.name) && (k.Kind == "" || k.Kind == kind) && k.msgRE.MatchString(msg) &&
			(k.inRE == nil || k.inRE.MatchString(renderInputs(v.Inputs))) {
			v.Known = k
			key = "known|" + k.What
			break
		}
	}
	h.vkeys[key]++
	if v.Known == nil {
		h.unknown++
	}
	if h.vkeys[key] <= 3 && len(h.violations) < 60 {
		h.violations = append(h.violations, v)
	}
}

type explorer struct {
	P        *Program
	sh       *solverShared
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*harnessRun
	active   int
	seed     int64
	thorough bool
	workers  int
	initFns  []*ssa.Function
	deadline time.Time
	initErr  string
}

// runAll explores the harnesses with a shared pool of workers.
func (e *explorer) runAll(hs []*harnessRun) {
	e.cond = sync.NewCond(&e.mu)
	e.hs = hs
	for _, h := range hs {
		h.vkeys, h.inconcl, h.covers, h.ends, h.frames = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}, map[string]bool{}
		h.queue = append(h.queue, &workItem{harness: h})
		h.pending = 1
	}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	for _, h := range hs {
		h.exhausted = h.stopped == "" && atomic.LoadInt64(&h.pending) == 0
	}
}

func (e *explorer) take() *workItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		// depth first within a harness; the harness that used the least time so far goes first
		var best *harnessRun
		for _, h := range e.hs {
			if len(h.queue) > 0 && (best == nil || h.busy < best.busy) {
				best = h
			}
		}
		if best != nil {
			n := len(best.queue)
			it := best.queue[n-1]
			best.queue = best.queue[:n-1]
			e.active++
			it.taken = time.Now()
			if best.t0.IsZero() {
				best.t0 = it.taken
			}
			best.busy += time.Microsecond // spreads the first items over the harnesses
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *explorer) done(it *workItem, out []*workItem) {
	h := it.harness
	stop := ""
	h.mu.Lock()
	if h.stopped == "" {
		switch {
		case h.cfg.maxPaths > 0 && h.stats.paths >= h.cfg.maxPaths:
			stop = fmt.Sprintf("path limit %d", h.cfg.maxPaths)
		case h.cfg.timeout > 0 && h.busy > h.cfg.timeout*time.Duration(e.workers):
			stop = fmt.Sprintf("time limit %v", h.cfg.timeout)
		case time.Now().After(e.deadline):
			stop = "time limit of the check"
		case h.unknown >= 12:
			stop = "enough violations"
		}
		if stop != "" {
			h.stopped = stop
		}
	} else {
		stop = h.stopped
	}
	h.mu.Unlock()
	e.mu.Lock()
	e.active--
	h.busy += time.Since(it.taken)
	if stop == "" {
		h.queue = append(h.queue, out...)
		atomic.AddInt64(&h.pending, int64(len(out))-1)
	} else {
		h.dropped += len(h.queue) + len(out)
		h.queue = nil
		atomic.AddInt64(&h.pending, -1)
		if h.dropped == 0 && atomic.LoadInt64(&h.pending) == 0 {
			h.mu.Lock()
			h.stopped = "" // finished exactly at the limit
			h.mu.Unlock()
		}
	}
	h.wall = time.Since(h.t0)
	e.cond.Broadcast()
	e.mu.Unlock()
}

func newSolverShared() *solverShared { return &solverShared{} }

func (sh *solverShared) statsOf() (int64, time.Duration) {
	return sh.stats.Queries, time.Duration(sh.stats.Nanos)
}

func (e *explorer) newInterp() *Interp {
	ip := &Interp{P: e.P, solver: NewSolver(e.sh), tc: NewTermCtx(), globals: map[*ssa.Global]*Value{},
		called: map[*finfo]bool{}, frozen: map[*Value]bool{}, typeIDs: nil, onceVals: map[string]Value{},
		vfs: map[string]Value{}, onceDone: map[*Value]bool{}, syncMaps: map[*Value]*Map{}, thorough: e.thorough}
	ip.typeIDs = map[typesType]*Value{}
	ip.run = &runStats{}
	ip.maxSteps, ip.maxDepth = 400_000_000, 5000
	ip.resetPath(nil)
	return ip
}

func (ip *Interp) resetPath(it *workItem) {
	ip.pathState = pathState{known: map[*Term]bool{}, cons: map[int32][]*Term{}}
	if it != nil {
		ip.prefix = it.prefix
		ip.model = append([]uint64(nil), it.model...)
		ip.h = it.harness
	}
	ip.out = nil
	ip.regTop = 0
	ip.curFn = nil
	ip.recoverFrame, ip.recoverDepth = nil, 0
	ip.mapOrder, ip.mapUsed = false, false
	ip.locked = 0
	if ip.frozenOn || len(ip.frozen) > 0 {
		ip.frozen = map[*Value]bool{}
		ip.frozenOn = false
	}
	ip.vfs = map[string]Value{}
	ip.pathNo++
}

// initialise runs the package initialisers; everything they create is the pre-path state.
func (ip *Interp) initialise(fns []*ssa.Function) (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch p := r.(type) {
			case pathEnd:
				err = p.kind + ": " + p.msg
			case targetPanic:
				err = "panic: " + ip.panicString(p.v)
			default:
				panic(r)
			}
		}
	}()
	ip.initing = true
	defer func() { ip.initing = false }()
	for _, f := range fns {
		ip.callFn(f, nil, nil)
	}
	return ""
}

func (ip *Interp) panicString(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(string); ok {
		return s
	}
	defer func() { recover() }()
	res := fmt.Sprintf("%s", typeName(v.t))
	if m := ip.P.lookupMethod(v.t, nil, "Error"); m != nil {
		ip.maxSteps += 100000
		r := ip.callFn(m, []Value{v.v}, nil)
		if s, ok := r.(string); ok {
			res = s
		} else if s, ok := r.(*SymStr); ok {
			res = ip.strUnder(s, ip.model)
		}
	}
	return res
}

func (e *explorer) worker(n int) {
	debug.SetMaxStack(4 << 30)
	ip := e.newInterp()
	defer ip.solver.Close()
	if msg := ip.initialise(e.initFns); msg != "" {
		e.mu.Lock()
		e.initErr = msg
		e.mu.Unlock()
	}
	ip.logging = true
	for {
		it := e.take()
		if it == nil {
			return
		}
		if it.harness.stopped != "" {
			e.done(it, nil)
			continue
		}
		out := e.runPath(ip, it)
		e.done(it, out)
	}
}

func (e *explorer) runPath(ip *Interp, it *workItem) []*workItem {
	h := it.harness
	ip.tc = NewTermCtx()
	ip.resetPath(it)
	ip.maxSteps, ip.maxDepth = h.cfg.maxSteps, h.cfg.maxDepth
	ip.run = &runStats{}
	end := pathEnd{"done", ""}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch p := r.(type) {
			case pathEnd:
				end = p
			case targetPanic:
				where := ""
				if ip.curFn != nil {
					where = ip.curFn.name
				}
				end = pathEnd{"panic", ip.panicString(p.v) + " in " + where}
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fn := ""
					if ip.curFn != nil {
						fn = ip.curFn.name
					}
					fmt.Fprintf(os.Stderr, "engine panic in %s (%s)\n%s\n", h.name, fn, debug.Stack())
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v", r)}
			}
		}()
		ip.callFn(h.fn, nil, nil)
	}()
	switch end.kind {
	case "panic":
		ip.recordViolation("panic", end.msg, ip.model)
	case "steps":
		ip.recordViolation("hang", end.msg, ip.model)
	case "depth":
		ip.recordViolation("overflow", end.msg, ip.model)
	}
	var cut []replayInput
	if end.kind == "unsupported" || end.kind == "unknown" {
		cut = ip.replayInputs(ip.model)
	}
	var smp *sampleTrace
	if end.kind == "done" || end.kind == "violation" {
		smp = &sampleTrace{Inputs: ip.replayInputs(ip.model), End: end.kind, MapOrder: ip.mapUsed}
		for _, o := range ip.observed {
			smp.Observe = append(smp.Observe, ip.observeStr(o))
		}
	}
	for i, t := range ip.pc {
		if end.kind == "done" && len(ip.dec)&7 == 0 && ip.tc.Eval(t, ip.model) != 1 {
			ip.inconcl = fmt.Sprintf("internal: the model of a path does not satisfy its condition %d of %d: %s", i, len(ip.pc), oneTerm(t))
			break
		}
	}
	ip.rollback()

	h.mu.Lock()
	defer h.mu.Unlock()
	h.stats.paths++
	if end.kind == "assume" {
		h.stats.assumePaths++
	}
	h.ends[end.kind]++
	h.stats.branches += ip.run.branches
	h.stats.asserts += ip.run.asserts
	h.stats.assertQueries += ip.run.assertQueries
	h.stats.steps += ip.steps
	if ip.steps > h.stats.maxStepsSeen {
		h.stats.maxStepsSeen = ip.steps
	}
	for fi := range ip.called {
		h.frames[fi.name] = true
	}
	clear(ip.called)
	if end.kind == "unsupported" || end.kind == "unknown" {
		h.inconcl[end.kind+": "+end.msg]++
		const K = 40
		h.ncut++
		if len(h.cutoff) < K {
			h.cutoff = append(h.cutoff, cut)
		} else if r := splitmix(uint64(e.seed)*1e9+uint64(h.ncut)) % uint64(h.ncut); r < K {
			h.cutoff[r] = cut
		}
	}
	if ip.inconcl != "" {
		h.inconcl[ip.inconcl]++
	}
	if end.kind != "assume" {
		for _, c := range ip.covers {
			h.covers[c]++
		}
	}
	if smp != nil {
		// reservoir sampling, deterministic in the seed up to scheduling
		const K = 24
		h.nsample++
		if len(h.samples) < K {
			h.samples = append(h.samples, *smp)
		} else {
			r := splitmix(uint64(e.seed)*1e9+uint64(h.nsample)) % uint64(h.nsample)
			if r < K {
				h.samples[r] = *smp
			}
		}
	}
	return ip.out
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// observeStr renders an observed value (bool, int or string in an interface) under the model.
func (ip *Interp) observeStr(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		v = i.v
	}
	switch x := v.(type) {
	case bool:
		return fmt.Sprintf("%v", x)
	case int64:
		return fmt.Sprintf("%d", x)
	case *Term:
		u := ip.tc.Eval(x, ip.model)
		if x.w == 0 {
			return fmt.Sprintf("%v", u == 1)
		}
		return fmt.Sprintf("%d", sx(u, x.w))
	case string, *SymStr:
		return fmt.Sprintf("%q", ip.strUnder(x, ip.model))
	}
	return fmt.Sprintf("?%T", v)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strings.Join

func oneTerm(t *Term) string {
	b, _ := smtScript([]*Term{t})
	return b
}
