package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayIn struct {
	Unit string   `json:"unit"`
	Vec  []uint64 `json:"vec"`
	Tier string   `json:"tier"`
}

type replayOut struct {
	Result string   `json:"result"` // ok, assert, panic, assume
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Left   int      `json:"left"`
}

func (e *Engine) tierName() string {
	if e.thorough {
		return "thorough"
	}
	return "quick"
}

// native runs vectors in the real build. It returns one result per vector;
// a crash or timeout is attributed to the first vector without a result.
func (e *Engine) native(ins []replayIn, timeout time.Duration) ([]replayOut, string) {
	var b bytes.Buffer
	for i := range ins {
		ins[i].Tier = e.tierName()
		j, _ := json.Marshal(ins[i])
		b.Write(j)
		b.WriteByte('\n')
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	limit := "ulimit -v 8000000; "
	if e.threads {
		limit = "" // the race detector maps its shadow memory
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", limit+"exec \"$0\"", e.replayBin)
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0")
	cmd.Stdin = &b
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	var res []replayOut
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r replayOut
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			res = append(res, r)
		}
	}
	crash := ""
	if ctx.Err() != nil {
		crash = "timeout"
	} else if err != nil {
		crash = "crash: " + err.Error()
		if s := errb.String(); s != "" {
			if len(s) > 300 {
				s = s[:300]
			}
			crash += ": " + s
		}
	}
	return res, crash
}

func (e *Engine) addCand(u *Unit, c *Cand) {
	key := u.Name + "|" + c.Kind + "|" + c.Msg
	e.mu.Lock()
	e.candSeen[key]++
	n := e.candSeen[key]
	done := e.violation != nil
	if u.KF != "" && e.kfHits[u.Name] != nil {
		done = true
	}
	e.mu.Unlock()
	if done || n > 12 {
		return
	}
	u.mu.Lock()
	u.cands = append(u.cands, c)
	u.mu.Unlock()
	e.candWG.Add(1)
	e.candCh <- candJob{u, c}
}

func (e *Engine) confirmLoop() {
	for j := range e.candCh {
		e.confirm(j.u, j.c)
		e.candWG.Done()
	}
}

func (e *Engine) confirm(u *Unit, c *Cand) {
	e.mu.Lock()
	done := e.violation != nil
	e.mu.Unlock()
	if done {
		return
	}
	n := 1
	if c.order {
		n = 60
	}
	ins := make([]replayIn, n)
	for i := range ins {
		ins[i] = replayIn{Unit: c.Unit, Vec: c.Vec}
	}
	to := 20 * time.Second
	res, crash := e.native(ins, to)
	bad := ""
	for _, r := range res {
		if r.Result == "assert" || r.Result == "panic" {
			bad = r.Result + ": " + r.Msg
			break
		}
	}
	if bad == "" && len(res) < n && crash != "" {
		bad = crash
	}
	if bad == "" {
		m := "no result"
		if len(res) > 0 {
			m = res[0].Result + " " + res[0].Msg
		}
		e.mu.Lock()
		e.unconf = append(e.unconf, c)
		e.unconfMsg = append(e.unconfMsg, m)
		e.mu.Unlock()
		return
	}
	e.confirmed(u, c, bad)
}

func (e *Engine) confirmed(u *Unit, c *Cand, bad string) {
	e.mu.Lock()
	if u.KF != "" && strings.Contains(c.Msg, u.kfMsg) {
		if e.kfHits[u.Name] == nil {
			e.kfHits[u.Name] = c
			c.Msg = bad
		}
	} else if e.violation == nil {
		e.violation = c
		e.vioOut = bad
	}
	e.mu.Unlock()
	u.mu.Lock()
	u.stop = true
	if u.cond != nil {
		u.cond.Broadcast()
	}
	u.mu.Unlock()
}

// validate replays models of passing paths in the real build and compares
// what the harness observed (translator validation).
func (e *Engine) validate(us []*Unit) (int, []string) {
	n := 0
	var mism []string
	for _, u := range us {
		if u.KF != "" || len(u.samples) == 0 {
			continue
		}
		var ins []replayIn
		for _, s := range u.samples {
			ins = append(ins, replayIn{Unit: u.Name, Vec: s.Vec})
		}
		res, crash := e.native(ins, 120*time.Second)
		for i, r := range res {
			switch r.Result {
			case "assert", "panic":
				c := &Cand{Unit: u.Name, Kind: r.Result, Msg: r.Msg, Vec: u.samples[i].Vec}
				mism = append(mism, fmt.Sprintf("%s: native %s %q where the encoding passes, vec %v", u.Name, r.Result, r.Msg, c.Vec))
				e.confirmed(u, c, r.Result+": "+r.Msg+" (found while validating a path the encoding accepted)")
			case "assume":
				mism = append(mism, fmt.Sprintf("%s: native run leaves the assumptions, vec %v", u.Name, u.samples[i].Vec))
			default:
				a, b := strings.Join(r.Obs, "\x00"), strings.Join(u.samples[i].Obs, "\x00")
				if a != b || r.Left != 0 {
					mism = append(mism, fmt.Sprintf("%s: observed %v natively, %v symbolically, vec %v left %d", u.Name, r.Obs, u.samples[i].Obs, u.samples[i].Vec, r.Left))
				} else {
					n++
				}
			}
		}
		if len(res) < len(ins) {
			mism = append(mism, fmt.Sprintf("%s: native run ended early: %s at vec %v", u.Name, crash, ins[len(res)].Vec))
			if crash != "" {
				e.confirm(u, &Cand{Unit: u.Name, Kind: "crash", Msg: crash, Vec: ins[len(res)].Vec})
			}
		}
	}
	return n, mism
}

func (e *Engine) report(path, tier string, ran, all []*Unit, validated int, mism []string, wall float64) {
	fns := map[string]bool{}
	for _, vm := range e.vms {
		for _, f := range vm.fns {
			if f.gpeg && f.calls > 0 {
				fns[strings.ReplaceAll(f.name, subjectPrefix+"/", "")] = true
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var paths, dec, asserts int64
	complete := true
	var us []map[string]any
	var samples []any
	for _, u := range ran {
		paths += u.paths
		dec += u.decisions
		asserts += u.asserts
		full := u.pending == 0 && u.limits == 0 && u.unknowns == 0 && !u.stop
		if u.KF == "" && !full {
			complete = false
		}
		m := map[string]any{
			"unit": u.Name, "bounds": u.Bounds, "paths": u.paths, "paths_ending_in_assume": u.assumed,
			"branch_decisions": u.decisions, "instructions": u.steps, "assertions": u.asserts,
			"assertions_with_symbolic_operands": u.symAsserts, "complete_within_bounds": full,
			"wall_s": u.wall, "reached": u.reach,
		}
		if !full {
			m["reduced_because"] = fmt.Sprintf("pending paths %d, paths cut %d %v, solver unknown %d %v", u.pending, u.limits, u.limitMsgs, u.unknowns, u.errs)
		}
		if u.KF != "" {
			m["known_finding"] = u.KF
		}
		us = append(us, m)
		for i := 0; i < len(u.samples) && i < 2; i++ {
			s := u.samples[len(u.samples)-1-i]
			samples = append(samples, map[string]any{"unit": u.Name, "input_vector": s.Vec, "observed": s.Obs})
		}
	}
	for _, u := range all[len(ran):] {
		us = append(us, map[string]any{"unit": u.Name, "not_run": true})
	}
	if samples == nil {
		samples = []any{"none: a violation was found first"}
	}
	cov := map[string]any{
		"states": paths, "transitions": dec, "traces_validated_against_impl": validated, "samples": samples,
		"units": us, "functions_encoded": fl, "assertions_checked": asserts,
		"solver": map[string]any{"queries": e.st.queries, "sat": e.st.sat, "unsat": e.st.unsat, "unknown": e.st.unknown,
			"cache_hits": e.st.hits, "seconds": float64(e.st.nanos) / 1e9},
		"complete_within_bounds": complete,
		"exhaustive":             false,
		"unconfirmed_candidates": len(e.unconf),
		"explanation":            "states = symbolic execution paths (each stands for all inputs satisfying its path condition); transitions = branch decisions the solver discharged; traces_validated = solver models of passing paths replayed in the native build with identical observations",
	}
	var skips []string
	e.initSkips.Range(func(k, _ any) bool { skips = append(skips, k.(string)); return true })
	if len(skips) > 0 {
		sort.Strings(skips)
		cov["initialiser_calls_skipped"] = skips
	}
	if len(mism) > 0 {
		cov["translator_mismatches"] = mism
	}
	nv := 0
	if e.violation != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": e.prop, "tier": tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the harness preconditions named in each unit's bounds",
			"go/ssa translation and the engine's instruction semantics (validated by replaying models natively)",
			"models: fmt formatting; package sync and goroutines (C26: interleavings at lock operations with a race check; elsewhere one schedule); gob, json and gzip by their documented effect on values; bytealg/bytes.Index/Count, append growth taken from the Go runtime",
			"z3 answers",
		},
		"wall_s": wall, "violations": nv,
	}
	if path != "" {
		os.MkdirAll(filepath.Dir(path), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
			fatal(err)
		}
	}
	for _, u := range ran {
		if u.KF == "" {
			continue
		}
		if c := e.kfHits[u.Name]; c != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", e.prop, u.KF, c.Msg)
		}
	}
	if e.violation != nil {
		rp := strings.TrimSuffix(path, ".json") + ".violation.json"
		if path == "" {
			rp = filepath.Join(os.TempDir(), e.prop+".violation.json")
		}
		j, _ := json.MarshalIndent(map[string]any{
			"property": e.prop, "unit": e.violation.Unit, "kind": e.violation.Kind, "message": e.violation.Msg,
			"native_result": e.vioOut, "vector": e.violation.Vec, "tier": tier,
			"how": "run.sh replay <this file> rebuilds the harness natively and feeds it the vector",
		}, "", " ")
		os.WriteFile(rp, append(j, '\n'), 0o644)
		fmt.Printf("unit %s: %s\n", e.violation.Unit, e.vioOut)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, rp)
	}
}
