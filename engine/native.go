package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native replay of explored paths against the compiled code.

type native struct {
	s      *session
	bin    string
	raceMu sync.Mutex
	race   string
	n      int
	mu     sync.Mutex
}

type nativeResult struct {
	End        string        `json:"end"` // done assert panic assume hang overflow race crash
	Msg        string        `json:"msg"`
	Observe    []string      `json:"observe,omitempty"`
	Notes      []string      `json:"notes,omitempty"`
	Inputs     []replayInput `json:"inputs,omitempty"`
	Reproduced bool          `json:"reproduced"`
}

type traceFile struct {
	Thorough bool         `json:"thorough"`
	Traces   []traceEntry `json:"traces"`
}

type traceEntry struct {
	Harness string        `json:"harness"`
	Inputs  []replayInput `json:"inputs"`
	Seed    uint64        `json:"seed,omitempty"`
}

func (n *native) tmpFile() string {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.n++
	return filepath.Join(n.s.tmp, fmt.Sprintf("t%d.json", n.n))
}

func (n *native) run(bin string, tr []traceEntry, timeout time.Duration) ([]nativeResult, nativeResult) {
	f := n.tmpFile()
	b, _ := json.Marshal(traceFile{tierFlag == "thorough", tr})
	os.WriteFile(f, b, 0o644)
	scratch := f + ".d"
	os.MkdirAll(scratch, 0o755)
	defer os.RemoveAll(scratch)
	cmd := exec.Command(bin, f)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VSYM_SCRATCH="+scratch, "GOMEMLIMIT=3GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limitedWriter{w: &errb, n: 1 << 16}
	if err := cmd.Start(); err != nil {
		return nil, nativeResult{End: "crash", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case <-done:
	case <-time.After(timeout):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	var rs []nativeResult
	dec := json.NewDecoder(&out)
	for dec.More() {
		var r nativeResult
		if dec.Decode(&r) != nil {
			break
		}
		rs = append(rs, r)
	}
	if len(rs) == len(tr) {
		return rs, nativeResult{End: "done"}
	}
	e := errb.String()
	switch {
	case timedOut:
		return rs, nativeResult{End: "hang", Msg: fmt.Sprintf("no answer within %v", timeout)}
	case strings.Contains(e, "stack overflow") || strings.Contains(e, "stack exceeds"):
		return rs, nativeResult{End: "overflow", Msg: "stack overflow"}
	case strings.Contains(e, "WARNING: DATA RACE"):
		return rs, nativeResult{End: "race", Msg: head(e, 1500)}
	case strings.Contains(e, "concurrent map"):
		return rs, nativeResult{End: "race", Msg: head(e, 1500)}
	case strings.Contains(e, "out of memory") || cmd.ProcessState.ExitCode() == -1 || strings.Contains(e, "vsym: memory"):
		return rs, nativeResult{End: "hang", Msg: "killed: out of memory"}
	}
	return rs, nativeResult{End: "crash", Msg: head(e, 1500)}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if len(p) > k {
			l.w.Write(p[:k])
		} else {
			l.w.Write(p)
		}
	}
	return len(p), nil
}

func (n *native) reproduce(v violation) nativeResult {
	tr := []traceEntry{{Harness: v.Harness, Inputs: v.Inputs}}
	bin := n.bin
	reps := 1
	if v.Kind == "frozen" {
		n.raceMu.Lock()
		if n.race == "" {
			b, err := n.s.buildNative(true)
			if err != nil {
				n.race = "-"
			} else {
				n.race = b
			}
		}
		bin = n.race
		n.raceMu.Unlock()
		if bin == "-" {
			return nativeResult{End: "crash", Msg: "race build failed"}
		}
		reps = 5
	}
	timeout := 15 * time.Second
	var last nativeResult
	for i := 0; i < reps; i++ {
		rs, end := n.run(bin, tr, timeout)
		r := end
		if len(rs) == 1 {
			r = rs[0]
		}
		r.Reproduced = matches(v, r)
		if r.Reproduced {
			return r
		}
		last = r
	}
	if v.MapOrder && (last.End == "done" || last.End == "assume") {
		// the order of map iteration is chosen anew on every execution: try many
		many := make([]traceEntry, 400)
		for i := range many {
			many[i] = tr[0]
		}
		rs, end := n.run(bin, many, 60*time.Second)
		for _, r := range append(rs, end) {
			if matches(v, r) {
				r.Reproduced = true
				return r
			}
		}
	}
	return last
}

func matches(v violation, r nativeResult) bool {
	switch v.Kind {
	case "assert":
		return r.End == "assert" || r.End == "panic"
	case "panic":
		return r.End == "panic" || r.End == "crash" || r.End == "overflow"
	case "hang", "overflow":
		return r.End == "hang" || r.End == "overflow"
	case "frozen":
		return r.End == "race"
	}
	return false
}

// complete runs the paths the engine could not finish on the real code: from the inputs the solver gave for as far as it got, and
// with drawn ones from there. What fails is a counterexample all the same.
func (n *native) complete(hs []*harnessRun, seed int64) (ran int) {
	for _, h := range hs {
		var tr []traceEntry
		for i, in := range h.cutoff {
			for j := 0; j < 8; j++ {
				tr = append(tr, traceEntry{h.name, in, splitmix(uint64(seed)*1e6+uint64(i*8+j)) | 1})
			}
		}
		if len(tr) == 0 {
			continue
		}
		rs, _ := n.run(n.bin, tr, 20*time.Second)
		ran += len(rs)
		for _, r := range rs {
			if r.End == "assert" || r.End == "panic" {
				h.record(violation{Harness: h.name, Kind: r.End, Msg: r.Msg, Inputs: r.Inputs, Where: "beyond what the engine could execute"})
			}
		}
	}
	return
}

// validate replays sampled paths and compares what they observed. A path that fails there is a violation.
func (n *native) validate(hs []*harnessRun) (ok, bad int, msgs []string) {
	var tr []traceEntry
	var want []sampleTrace
	var owner []*harnessRun
	for _, h := range hs {
		for _, s := range h.samples {
			tr = append(tr, traceEntry{Harness: h.name, Inputs: s.Inputs})
			want = append(want, s)
			owner = append(owner, h)
		}
	}
	if len(tr) == 0 {
		return
	}
	rs, end := n.run(n.bin, tr, 120*time.Second)
	if len(rs) != len(tr) {
		bad++
		i := len(rs)
		msgs = append(msgs, fmt.Sprintf("validation stopped at %s [%s]: %s %s", tr[i].Harness, renderInputs(tr[i].Inputs), end.End, oneLine(end.Msg)))
	}
	for i, r := range rs {
		good := r.End == "done" && want[i].End == "done" || want[i].End == "violation" && (r.End == "assert" || r.End == "panic")
		if good && want[i].End == "done" && !want[i].MapOrder {
			good = strings.Join(r.Observe, "\x00") == strings.Join(want[i].Observe, "\x00")
		}
		if good {
			ok++
		} else {
			bad++
			if want[i].End == "done" && (r.End == "assert" || r.End == "panic") {
				owner[i].record(violation{Harness: tr[i].Harness, Kind: r.End, Msg: r.Msg, Inputs: tr[i].Inputs, Where: "replay of a path"})
			}
			if len(msgs) < 6 {
				msgs = append(msgs, fmt.Sprintf("validation mismatch: %s [%s]\n  engine: %s %v\n  native: %s %s %v", tr[i].Harness, renderInputs(tr[i].Inputs), want[i].End, want[i].Observe, r.End, oneLine(r.Msg), r.Observe))
			}
		}
	}
	return
}
