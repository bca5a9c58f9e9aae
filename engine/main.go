package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// repoDir is the tree to check; GOSYM_REPO names a scratch copy while a change is being developed.
var repoDir = func() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var (
	verifDir = "/verif"
	tierFlag = "quick"
)

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`    // regular expression matched against the whole message
	Inputs   string `json:"inputs"` // optional regular expression matched against the rendered inputs
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."

	msgRE, inRE *regexp.Regexp
	hits        int
}

func loadKnown(prop string) []*knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []*knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatal("known-findings.json: %v", err)
	}
	var out []*knownFinding
	for _, k := range doc.Findings {
		if k.Property == prop && k.Status == "known" {
			k.msgRE = regexp.MustCompile("(?s)^(?:" + k.Msg + ")$")
			if k.Inputs != "" {
				k.inRE = regexp.MustCompile(k.Inputs)
			}
			out = append(out, k)
		}
	}
	return out
}

func renderInputs(in []replayInput) string {
	var sb strings.Builder
	prev := ""
	for i, x := range in {
		if x.Kind == "byte" && x.Name == prev && i > 0 && in[i-1].Kind == "byte" {
			fmt.Fprintf(&sb, "%s", byteStr(byte(x.Val)))
			continue
		}
		if i > 0 {
			sb.WriteString("; ")
		}
		if x.Kind == "byte" {
			fmt.Fprintf(&sb, "%s=%s", x.Name, byteStr(byte(x.Val)))
		} else {
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.Val)
		}
		prev = x.Name
	}
	return sb.String()
}

func byteStr(b byte) string {
	if b >= 0x20 && b < 0x7f && b != ';' && b != '\\' {
		return string(rune(b))
	}
	return fmt.Sprintf("\\x%02x", b)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(3)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOSUMDB=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
}

type session struct {
	pkg     string // harness package name, e.g. c03
	tmp     string
	overlay map[string]string
	ovFile  string
	modFile string
	hs      []string
	P       *Program
}

func (s *session) close() {
	if s.tmp != "" && strings.HasPrefix(s.tmp, os.TempDir()) {
		os.RemoveAll(s.tmp)
	}
}

var harnessRE = regexp.MustCompile(`(?m)^func (H_[A-Za-z0-9_]+)\(\)`)

// newSession lays harness packages over /repo: internal/verif/{vsym,h,<pkg>} and a replay main program.
func newSession(pkg string) (*session, error) {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	s := &session{pkg: pkg, tmp: tmp, overlay: map[string]string{}}
	add := func(sub, dir string) error {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			s.overlay[filepath.Join(repoDir, "internal/verif", sub, filepath.Base(f))] = f
			if sub == pkg {
				b, err := os.ReadFile(f)
				if err != nil {
					return err
				}
				for _, m := range harnessRE.FindAllStringSubmatch(string(b), -1) {
					s.hs = append(s.hs, m[1])
				}
			}
		}
		return nil
	}
	for _, d := range [][2]string{{"vsym", filepath.Join(verifDir, "vsym")}, {"h", filepath.Join(verifDir, "harness/h")}, {"hw", filepath.Join(verifDir, "harness/hw")}, {"hg", filepath.Join(verifDir, "harness/hg")}, {"ha", filepath.Join(verifDir, "harness/ha")}, {pkg, filepath.Join(verifDir, "harness", pkg)}} {
		if err := add(d[0], d[1]); err != nil {
			return nil, err
		}
	}
	if len(s.hs) == 0 {
		return nil, fmt.Errorf("no harness in package %s", pkg)
	}
	sort.Strings(s.hs)
	var mb strings.Builder
	fmt.Fprintf(&mb, "package main\n\nimport (\n\tp %q\n\t%q\n)\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n", modPath+"/internal/verif/"+pkg, vsymPath)
	for _, h := range s.hs {
		fmt.Fprintf(&mb, "\t\t%q: p.%s,\n", h, h)
	}
	mb.WriteString("\t})\n}\n")
	mf := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mf, []byte(mb.String()), 0o644); err != nil {
		return nil, err
	}
	s.overlay[filepath.Join(repoDir, "internal/verif/replay_"+pkg, "main.go")] = mf
	b, _ := json.Marshal(map[string]any{"Replace": s.overlay})
	s.ovFile = filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(s.ovFile, b, 0o644); err != nil {
		return nil, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	s.modFile = filepath.Join(tmp, "go.mod")
	return s, nil
}

func (s *session) load() error {
	subst := map[string]string{}
	for p, d := range substPkgs {
		subst[p] = filepath.Join(verifDir, "stubs", d)
	}
	P, err := loadProgram(&loadConfig{
		dir: repoDir, env: goEnv(),
		flags:    []string{"-overlay=" + s.ovFile, "-modfile=" + s.modFile},
		overlay:  s.overlay,
		patterns: []string{modPath + "/internal/verif/" + s.pkg},
		subst:    subst,
		bodies:   wantBodies,
	})
	s.P = P
	return err
}

func (s *session) buildNative(race bool) (string, error) {
	out := filepath.Join(s.tmp, "replay")
	args := []string{"build", "-overlay=" + s.ovFile, "-modfile=" + s.modFile}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, modPath+"/internal/verif/replay_"+s.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, b)
	}
	return out, nil
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: gosym check|run|replay ...")
	}
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		verifDir = d
	}
	buildIntrinsics()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(16 << 30)
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("harness", "", "only harnesses matching this regexp")
	workers := fs.Int("workers", runtime.NumCPU(), "workers")
	file := fs.String("file", "", "replay file")
	verbose := fs.Bool("v", false, "verbose")
	noev := fs.Bool("noev", false, "do not write evidence")
	tmo := fs.Duration("timeout", 0, "exploration time limit per harness")
	all := fs.Duration("deadline", 0, "exploration time limit")
	fs.Parse(os.Args[2:])
	tierFlag = *tier
	switch os.Args[1] {
	case "check":
		if f := os.Getenv("GOSYM_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			r := check(&checkOpts{prop: *prop, tier: *tier, only: *only, workers: *workers, verbose: *verbose, noev: *noev, timeout: *tmo, deadline: *all})
			pprof.StopCPUProfile()
			os.Exit(r)
		}
		os.Exit(check(&checkOpts{prop: *prop, tier: *tier, only: *only, workers: *workers, verbose: *verbose, noev: *noev, timeout: *tmo, deadline: *all}))
	case "replay":
		os.Exit(replayCmd(*file))
	}
	fatal("unknown command %s", os.Args[1])
}

type checkOpts struct {
	prop, tier, only string
	workers          int
	verbose, noev    bool
	timeout          time.Duration
	deadline         time.Duration
}

func check(o *checkOpts) int {
	t0 := time.Now()
	pkg := strings.ToLower(o.prop)
	s, err := newSession(pkg)
	if err != nil {
		fatal("%v", err)
	}
	defer s.close()
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		fmt.Sscan(v, &seed)
	}
	type bres struct {
		bin string
		err error
	}
	bch := make(chan bres, 1)
	go func() {
		b, err := s.buildNative(false)
		bch <- bres{b, err}
	}()
	if err := s.load(); err != nil {
		br := <-bch
		if br.err != nil {
			fmt.Fprintf(os.Stderr, "gosym: %v\n", br.err)
		}
		fatal("load: %v", err)
	}
	loadWall := time.Since(t0)
	thorough := o.tier == "thorough"
	hpkg := s.P.pkgs[modPath+"/internal/verif/"+pkg]
	var hs []*harnessRun
	var sel *regexp.Regexp
	if o.only != "" {
		sel = regexp.MustCompile(o.only)
	}
	known := loadKnown(o.prop)
	for _, n := range s.hs {
		if sel != nil && !sel.MatchString(n) {
			continue
		}
		h := &harnessRun{name: n, fn: hpkg.Func(n), known: known}
		h.cfg = harnessCfg{maxSteps: 30_000_000, maxDepth: 3000, timeout: o.timeout}
		h.declared = declaredCovers(h.fn)
		hs = append(hs, h)
	}
	dl := 240 * time.Second
	if thorough {
		dl = 600 * time.Second
	}
	if o.deadline > 0 {
		dl = o.deadline
	}
	e := &explorer{P: s.P, sh: newSolverShared(), seed: seed, thorough: thorough, workers: o.workers, deadline: t0.Add(dl)}
	if f := hpkg.Func("init"); f != nil {
		e.initFns = []*ssa.Function{f}
	}
	e.runAll(hs)
	exploreWall := time.Since(t0) - loadWall
	if e.initErr != "" {
		fmt.Fprintf(os.Stderr, "gosym: initialisation: %s\n", e.initErr)
	}
	br := <-bch
	if br.err != nil {
		fatal("native build: %v", br.err)
	}
	nat := &native{s: s, bin: br.bin}

	// sample validation
	completed := nat.complete(hs, seed)
	validated, mismatched, msgs := nat.validate(hs)

	// replay violations natively
	type conf struct {
		h *harnessRun
		v violation
		r nativeResult
	}
	var confirmed, knownHit []conf
	var unrepro []conf
	var todo []conf
	for _, h := range hs {
		for _, v := range h.violations {
			todo = append(todo, conf{h: h, v: v})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for i := range todo {
		wg.Add(1)
		go func(c *conf) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			c.r = nat.reproduce(c.v)
		}(&todo[i])
	}
	wg.Wait()
	for _, c := range todo {
		switch {
		case !c.r.Reproduced:
			unrepro = append(unrepro, c)
		case c.v.Known != nil:
			c.v.Known.hits++
			knownHit = append(knownHit, c)
		default:
			confirmed = append(confirmed, c)
		}
	}

	rdir := filepath.Join(verifDir, "evidence", "replays")
	exit := 0
	nviol := 0
	if len(confirmed) > 0 {
		os.MkdirAll(rdir, 0o755)
		seen := map[string]bool{}
		for i, c := range confirmed {
			key := c.v.Harness + "|" + c.v.Kind + "|" + c.v.Msg
			if seen[key] {
				continue
			}
			seen[key] = true
			nviol++
			p := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", o.prop, c.v.Harness, i))
			b, _ := json.MarshalIndent(map[string]any{"property": o.prop, "harness": c.v.Harness, "kind": c.v.Kind, "msg": c.v.Msg,
				"inputs": c.v.Inputs, "rendered": renderInputs(c.v.Inputs), "where": c.v.Where, "native": c.r}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, p)
			fmt.Printf("  %s: %s: %s\n  inputs: %s\n  native: %s %s\n", c.v.Harness, c.v.Kind, oneLine(c.v.Msg), renderInputs(c.v.Inputs), c.r.End, oneLine(c.r.Msg))
			for _, s := range c.r.Notes {
				fmt.Printf("  %s\n", s)
			}
		}
		exit = 1
	}
	for _, k := range known {
		if k.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.What)
		}
	}
	for _, c := range unrepro {
		fmt.Fprintf(os.Stderr, "not reproduced natively (ignored): %s: %s: %s\n  inputs: %s\n  native: %s %s\n", c.v.Harness, c.v.Kind, oneLine(c.v.Msg), renderInputs(c.v.Inputs), c.r.End, oneLine(c.r.Msg))
	}
	for _, m := range msgs {
		fmt.Fprintf(os.Stderr, "%s\n", m)
	}

	// evidence
	var paths, assumeP, branches, asserts, aq, steps int64
	frames := map[string]bool{}
	perH := []any{}
	samples := []any{}
	reduced := []string{}
	vac := []string{}
	allDone := true
	for _, h := range hs {
		paths += h.stats.paths
		assumeP += h.stats.assumePaths
		branches += h.stats.branches
		asserts += h.stats.asserts
		aq += h.stats.assertQueries
		steps += h.stats.steps
		for f := range h.frames {
			frames[f] = true
		}
		for _, c := range h.declared {
			if h.covers[c] == 0 {
				vac = append(vac, h.name+": cover point "+c+" not reached")
			}
		}
		if h.stats.paths == h.stats.assumePaths+int64(h.ends["unsupported"]+h.ends["unknown"]) {
			vac = append(vac, h.name+": no completed path")
		}
		for _, k := range sortedKeys(h.inconcl) {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d paths)", h.name, k, h.inconcl[k]))
		}
		if !h.exhausted {
			allDone = false
			reduced = append(reduced, fmt.Sprintf("%s: not all paths explored: %s (%d queued)", h.name, h.stopped, h.dropped))
		}
		perH = append(perH, map[string]any{"harness": h.name, "paths": h.stats.paths, "infeasible_or_assumed_away": h.stats.assumePaths, "branch_queries": h.stats.branches,
			"assertions": h.stats.asserts, "assertion_queries": h.stats.assertQueries, "steps": h.stats.steps, "max_steps_on_a_path": h.stats.maxStepsSeen,
			"covers": h.covers, "ends": h.ends, "exhausted": h.exhausted, "wall_s": h.wall.Seconds()})
		for i, sm := range h.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": h.name, "inputs": renderInputs(sm.Inputs), "observed": sm.Observe})
		}
	}
	q, qt := e.sh.statsOf()
	cov := map[string]any{
		"states": paths, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
		"paths_cut_by_assumption": assumeP, "assertions_checked": asserts, "assertion_queries": aq,
		"solver_queries": q, "solver_time_s": qt.Seconds(), "solver": "z3 4.8.12 (QF_BV, incremental)",
		"functions_encoded": sortedKeys(frames), "functions_encoded_count": len(frames),
		"harnesses": perH, "bounds": harnessBounds(s, hs), "reduced_bounds": reduced, "vacuity_warnings": vac,
		"exhaustive_within_bounds": allDone && len(reduced) == 0, "traces_mismatched": mismatched, "unfinished_paths_completed_natively": completed,
		"known_findings_hit": len(knownHit), "unreproduced_candidates": len(unrepro),
		"load_s": loadWall.Seconds(), "explore_s": exploreWall.Seconds(), "ssa_instructions_executed": steps,
	}
	ev := map[string]any{"property": o.prop, "tier": o.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"Package reflect, package fmt's reflective fall-back, github.com/arr-ai/frozen and testify/assert are executed from the models in /verif/stubs; regexp matching is executed by the engine's own matcher (leftmost-first) on symbolic text and by Go's regexp on concrete text.",
			"Every reported violation was replayed against the natively compiled code; a sample of explored paths is replayed natively on every run and compared.",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol}
	if !o.noev {
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", o.prop+".json"), b, 0o644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d cut by assumptions), %d branch queries, %d assertions, %d solver queries %.1fs, %d traces validated, load %.1fs, total %.1fs\n",
		o.prop, o.tier, len(hs), paths, assumeP, branches, asserts, q, qt.Seconds(), validated, loadWall.Seconds(), time.Since(t0).Seconds())
	if o.verbose {
		for _, h := range hs {
			fmt.Printf("  %-40s paths=%d assume=%d asserts=%d maxsteps=%d wall=%.1fs exhausted=%v %s covers=%v ends=%v\n", h.name, h.stats.paths, h.stats.assumePaths, h.stats.asserts, h.stats.maxStepsSeen, h.wall.Seconds(), h.exhausted, h.stopped, h.covers, h.ends)
		}
	}
	for _, r := range reduced {
		fmt.Fprintf(os.Stderr, "reduced bound: %s\n", r)
	}
	for _, r := range vac {
		fmt.Fprintf(os.Stderr, "vacuity: %s\n", r)
	}
	return exit
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// declaredCovers finds the constant arguments of vsym.Cover in the harness function and its closures.
func declaredCovers(fn *ssa.Function) []string {
	m := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if sc := c.Call.StaticCallee(); sc != nil && sc.String() == vsymPath+".Cover" {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							if s, ok := constVal(k).(string); ok {
								m[s] = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return sortedKeys(m)
}

// harnessBounds reads the "bounds:" lines of the harness doc comments.
func harnessBounds(s *session, hs []*harnessRun) map[string]string {
	out := map[string]string{}
	for _, f := range s.overlay {
		if !strings.Contains(f, "/harness/"+s.pkg+"/") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			m := harnessRE.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			var doc []string
			for j := i - 1; j >= 0 && strings.HasPrefix(lines[j], "//"); j-- {
				doc = append([]string{strings.TrimSpace(strings.TrimPrefix(lines[j], "//"))}, doc...)
			}
			out[m[1]] = strings.Join(doc, " ")
		}
	}
	return out
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property, Harness, Kind, Msg string
		Inputs                       []replayInput
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	s, err := newSession(strings.ToLower(r.Property))
	if err != nil {
		fatal("%v", err)
	}
	defer s.close()
	bin, err := s.buildNative(false)
	if err != nil {
		fatal("%v", err)
	}
	n := &native{s: s, bin: bin}
	res := n.reproduce(violation{Harness: r.Harness, Kind: r.Kind, Msg: r.Msg, Inputs: r.Inputs})
	fmt.Printf("%s: %s\ninputs: %s\nnative outcome: %s %s\n", r.Harness, r.Msg, renderInputs(r.Inputs), res.End, res.Msg)
	for _, s := range res.Notes {
		fmt.Println("  " + s)
	}
	if res.Reproduced {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 0
}
