// symgo decides the properties of pokercompetition by symbolic execution of the real Go
// code (go/ssa) with an SMT solver; see /verif/DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func caseJSON(c *Case) string { b, _ := json.Marshal(c); return string(b) }

// buildNative compiles the harness with the instrumented sources.
func (b *Build) buildNative() error {
	b.bin = filepath.Join(b.work, "native")
	cmd := exec.Command("go", "build", "-overlay", b.overlayFile, "-o", b.bin, ".")
	cmd.Dir = filepath.Join(b.work, "h")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

// replay runs cases in the native binary, one result per case.
func (e *Engine) replay(cs []*Case) ([]*Result, error) {
	<-e.binReady
	if e.binErr != nil {
		return nil, e.binErr
	}
	f, err := os.CreateTemp(e.build.work, "cases")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	enc := json.NewEncoder(f)
	for _, c := range cs {
		enc.Encode(c)
	}
	f.Close()
	outp := f.Name() + ".out"
	defer os.Remove(outp)
	cmd := exec.Command(e.build.bin, f.Name(), outp)
	cmd.Dir = e.build.work
	var eb bytes.Buffer
	cmd.Stderr = &eb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Signal(syscall.SIGQUIT) // prints the stacks
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		err = fmt.Errorf("timeout")
	}
	data, _ := os.ReadFile(outp)
	var rs []*Result
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		r := &Result{}
		if dec.Decode(r) != nil {
			break
		}
		rs = append(rs, r)
	}
	if len(rs) < len(cs) {
		t := eb.String()
		if len(t) > 6000 {
			t = t[:6000]
		}
		return rs, fmt.Errorf("native run ended after %d of %d cases: %v %s", len(rs), len(cs), err, t)
	}
	return rs, nil
}

type knownFile struct {
	Known []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"known"`
	Fixed []string `json:"fixed"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tierS := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	work := flag.String("work", "", "work directory (default: temporary)")
	only := flag.String("only", "", "run only harnesses containing this substring")
	nw := flag.Int("workers", runtime.NumCPU(), "workers")
	noMerge := flag.Bool("nomerge", false, "disable state merging")
	dbg := flag.Bool("debugmerge", false, "explain failed merges")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Int("budget", 0, "seconds of exploration")
	replayF := flag.String("replay", "", "replay a case file natively")
	steps := flag.Int64("steps", 0, "instruction bound per path")
	flag.Parse()
	t0 := time.Now()
	wd := *work
	if wd == "" {
		d, err := os.MkdirTemp("", "symgo")
		if err != nil {
			fatal("%v", err)
		}
		wd = d
		defer os.RemoveAll(d)
	}
	exit := func(c int) {
		if *work == "" {
			os.RemoveAll(wd)
		}
		os.Exit(c)
	}
	e := newEngine()
	e.verif = *verif
	e.property = *prop
	e.noMerge = *noMerge
	e.debugMerge = *dbg
	if s := os.Getenv("SYMGO_Z3"); s != "" {
		e.z3 = s
	}
	if *tierS == "thorough" {
		e.tier = 1
		e.timeoutMS = 60000
		e.sampleCap = 120
		e.maxSteps = 10_000_000
	}
	if *steps > 0 {
		e.maxSteps = *steps
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		e.rng.Seed(int64(s))
	}
	secs := 420
	if e.tier == 1 {
		secs = 780
	}
	if *budget > 0 {
		secs = *budget
	}
	pid := *prop
	if *replayF != "" {
		if data, err := os.ReadFile(*replayF); err == nil {
			if m := regexp.MustCompile(`"harness":\s*"(C\d\d)_`).FindSubmatch(data); m != nil {
				pid = string(m[1])
			}
		}
	}
	b, err := prepare(*repo, *verif, wd, wantsPoints(*verif, pid))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	e.build = b
	e.binReady = make(chan struct{})
	go func() {
		e.binErr = b.buildNative()
		close(e.binReady)
	}()
	if *replayF != "" {
		data, err := os.ReadFile(*replayF)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		var c struct {
			Case
			Label string `json:"label"`
		}
		if err := json.Unmarshal(data, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		rs, err := e.replay([]*Case{&c.Case})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		js, _ := json.MarshalIndent(rs[0], "", " ")
		fmt.Println(string(js))
		if len(rs[0].Fails) > 0 || rs[0].Panic != "" {
			exit(1)
		}
		exit(0)
	}
	var kf knownFile
	if data, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(data, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			exit(2)
		}
		for _, k := range kf.Known {
			if k.Property == *prop {
				e.known[k.ID] = k.What
			}
		}
	}
	if err := b.load(e); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	tLoad := time.Since(t0)
	var hs []string
	for _, h := range b.harnesses {
		if strings.HasPrefix(h, *prop+"_") && strings.Contains(h, *only) {
			hs = append(hs, h)
		}
	}
	sort.Strings(hs)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		exit(2)
	}
	e.deadline = time.Now().Add(time.Duration(secs) * time.Second)
	for _, h := range hs {
		e.addTask(h, nil)
	}
	var wg sync.WaitGroup
	ws := make([]*Worker, *nw)
	var tmu sync.Mutex
	taskT := map[string]time.Duration{}
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *Worker
			for {
				t := e.nextTask()
				if t == nil {
					break
				}
				if w == nil {
					w = NewWorker(e, i)
					ws[i] = w
				}
				w.deadline = e.deadline
				ts := time.Now()
				w.runTask(t)
				tmu.Lock()
				taskT[t.harness] += time.Since(ts)
				tmu.Unlock()
				e.doneTask()
			}
			if w != nil {
				e.absorbSolver(w.solver)
				w.solver.close()
			}
		}(i)
	}
	wg.Wait()
	tExp := time.Since(t0) - tLoad
	<-e.binReady
	if e.binErr != nil {
		fmt.Fprintln(os.Stderr, e.binErr)
		exit(2)
	}
	// trace validation
	validated, mismatched := 0, 0
	var cs []*Case
	var ss []*Sample
	for _, h := range hs {
		for _, s := range e.samples[h] {
			if s != nil {
				cs = append(cs, s.c)
				ss = append(ss, s)
			}
		}
	}
	bad := ss
	var lastBad []string
	for round := 0; round < 5 && len(bad) > 0; round++ {
		var bc []*Case
		for _, s := range bad {
			bc = append(bc, s.c)
		}
		rs, err := e.replay(bc)
		if err != nil {
			e.note("trace validation: " + err.Error())
			break
		}
		var nb []*Sample
		lastBad = nil
		for i, s := range bad {
			r := rs[i]
			why := ""
			if r.Stopped || r.Panic != "" || len(r.Missing) > 0 {
				why = fmt.Sprintf("stopped=%v panic=%q missing=%v", r.Stopped, r.Panic, r.Missing)
			} else if !sameLog(s.log, r.Log) {
				why = fmt.Sprintf("log symbolic %v native %v", s.log, r.Log)
			}
			for _, f := range r.Fails {
				if !strings.HasPrefix(f, "known:") && len(e.violations) == 0 {
					why += " fails " + f
				}
			}
			if why == "" {
				validated++
			} else {
				nb = append(nb, s)
				if len(why) > 1500 {
					why = why[:1500]
				}
				lastBad = append(lastBad, s.c.Harness+": "+why+" case "+caseJSON(s.c))
			}
		}
		bad = nb
	}
	mismatched = len(bad)
	for _, m := range lastBad {
		e.notes["trace mismatch: "+m]++
	}

	// report
	tot := Worker{}
	blocks := 0
	repoBlocks := map[string]bool{}
	for _, w := range ws {
		if w == nil {
			continue
		}
		tot.branches += w.branches
		tot.forks += w.forks
		tot.tasks += w.tasks
		tot.modelHits += w.modelHits
		tot.pruned += w.pruned
		tot.instrs += w.instrs
		tot.paths += w.paths
		tot.merges += w.merges
		tot.mergeFail += w.mergeFail
		tot.asserts += w.asserts
		tot.trivialAsserts += w.trivialAsserts
		for bl := range w.blocksSeen {
			p := e.prog.Fset.Position(bl.Parent().Pos())
			if strings.HasPrefix(p.Filename, *repo+"/") {
				repoBlocks[bl.Parent().String()+"#"+strconv.Itoa(bl.Index)] = true
			}
		}
	}
	blocks = len(repoBlocks)
	if f := os.Getenv("SYMGO_COVER"); f != "" {
		e.dumpCover(f, *repo, ws)
	}
	fns, deps, lines := e.coveredFuncs()
	var unreached []string
	for k := range e.wantL {
		if !e.reachL[k] {
			unreached = append(unreached, k)
		}
	}
	sort.Strings(unreached)
	if *verbose || len(unreached) > 0 || mismatched > 0 {
		for _, u := range unreached {
			fmt.Println("note: goal not reached:", u)
		}
	}
	incomplete := false
	for _, k := range sortedKeys(e.cuts) {
		incomplete = true
		if *verbose || !e.cutBounds[k] {
			fmt.Printf("note: cut (%d): %s\n", e.cuts[k], k)
		}
	}
	for _, k := range sortedKeys(e.notes) {
		if *verbose || strings.HasPrefix(k, "counterexample") || strings.HasPrefix(k, "trace") {
			fmt.Printf("note (%d): %s\n", e.notes[k], k)
		}
	}
	for _, s := range e.solverErrs {
		fmt.Println("note: solver error:", s)
	}
	fmt.Printf("%s %s: harnesses=%d paths=%d branches=%d merges=%d/%d instrs=%d asserts=%d (trivial %d) queries=%d (sat %d unsat %d unknown %d) solver=%.1fs load=%.1fs explore=%.1fs traces=%d mismatched=%d\n",
		*prop, *tierS, len(hs), tot.paths, tot.branches, tot.merges, tot.merges+tot.mergeFail, tot.instrs, tot.asserts, tot.trivialAsserts,
		e.queries, e.sat, e.unsat, e.unknown, e.solverDur.Seconds(), tLoad.Seconds(), tExp.Seconds(), validated, mismatched)
	if *verbose {
		for _, h := range hs {
			fmt.Printf("  %-40s %.1fs samples=%d paths=%d\n", h, taskT[h].Seconds(), len(e.samples[h]), e.sampleSeen[h])
		}
	}
	outcome := 0
	rd := filepath.Join(*verif, "evidence", "replay")
	for i, v := range e.violations {
		os.MkdirAll(rd, 0o755)
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *prop, i+1))
		js, _ := json.MarshalIndent(map[string]interface{}{
			"harness": v.Case.Harness, "tier": v.Case.Tier, "vals": v.Case.Vals, "label": v.Label, "kind": v.Kind,
			"native": v.Native, "how": "check.sh --replay " + p,
		}, "", " ")
		os.WriteFile(p, js, 0o644)
		fmt.Printf("violated: %s: %s (native: fails=%v panic=%q)\n", v.Harness, v.Label, v.Native.Fails, v.Native.Panic)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		outcome = 1
	}
	var kl []string
	for id := range e.known {
		kl = append(kl, id)
	}
	sort.Strings(kl)
	var seenKnown []string
	for _, id := range kl {
		if e.knownHit[id] != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, id, e.known[id])
			seenKnown = append(seenKnown, id)
		}
	}
	// evidence
	var cutL []string
	for _, k := range sortedKeys(e.cuts) {
		cutL = append(cutL, fmt.Sprintf("%s (%d)", k, e.cuts[k]))
	}
	samples := []map[string]interface{}{}
	for i, s := range ss {
		if i%((len(ss)+4)/5) == 0 && len(samples) < 5 {
			samples = append(samples, map[string]interface{}{"harness": s.c.Harness, "inputs": s.c.Vals, "observed": s.log})
		}
	}
	asserts := []string{}
	for _, k := range sortedKeys(e.assertL) {
		asserts = append(asserts, fmt.Sprintf("%s x%d", k, e.assertL[k]))
	}
	verdict := "held on every path within the stated bounds"
	if outcome == 1 {
		verdict = "violated"
	} else if incomplete {
		verdict = "held on every explored path; some paths were cut (see cuts)"
	}
	var reachedL []string
	for k := range e.reachL {
		reachedL = append(reachedL, k)
	}
	sort.Strings(reachedL)
	ev := evidence(e, *prop, *tierS, t0, map[string]interface{}{
		"states":                         tot.forks + tot.tasks,
		"transitions":                    tot.instrs,
		"traces_validated_against_impl":  validated,
		"traces_mismatched":              mismatched,
		"samples":                        samples,
		"harnesses":                      hs,
		"functions_encoded":              fns,
		"dependency_functions_encoded":   deps,
		"source_lines_of_encoded_funcs":  lines,
		"ssa_blocks_executed_in_repo":    blocks,
		"paths_completed":                tot.paths,
		"paths_pruned_by_assumptions":    tot.pruned,
		"branch_conditions_decided":      tot.branches,
		"state_merges":                   tot.merges,
		"assertions_checked":             tot.asserts,
		"assertions_syntactically_true":  tot.trivialAsserts,
		"assertion_labels":               asserts,
		"solver":                         e.z3,
		"solver_queries":                 e.queries,
		"solver_sat":                     e.sat,
		"solver_unsat":                   e.unsat,
		"solver_unknown":                 e.unknown,
		"solver_seconds":                 e.solverDur.Seconds(),
		"cuts":                           cutL,
		"goals_reached":                  reachedL,
		"goals_unreached":                unreached,
		"counterexamples_not_reproduced": e.spurious,
		"known_findings_seen":            seenKnown,
		"verdict":                        verdict,
	}, outcome)
	ep := filepath.Join(*verif, "evidence", *prop+".json")
	os.MkdirAll(filepath.Dir(ep), 0o755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(ep, js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	exit(outcome)
}

func sameLog(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}
