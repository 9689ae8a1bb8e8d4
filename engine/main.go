package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fHarness  = flag.String("harness", "/verif/harness", "harness module")
	fNative   = flag.String("native", "", "native replay binary")
	fCLI      = flag.String("cli", "", "command line binary")
	fEvidence = flag.String("evidence", "", "evidence file")
	fReplays  = flag.String("replays", "", "directory for counterexamples")
	fKnown    = flag.String("known", "", "known findings file")
	fBudget   = flag.Float64("budget", 75, "exploration time in seconds")
	fWorkers  = flag.Int("workers", 0, "workers")
	fOnly     = flag.String("only", "", "only harnesses whose name contains this")
	fLevel    = flag.String("level", "model_checking", "")
	fVerbose  = flag.Bool("verbose", false, "")
	fSteps    = flag.Int64("steps", 6000000, "instruction bound per path")
	fBounds   = flag.String("bounds", "", "bounds file")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	os.Exit(run())
}

func run() int {
	t0 := time.Now()
	p, err := loadProgram(*fHarness, "./h", "github.com/lyraproj/puppet-parser/parse")
	if err != nil {
		fmt.Fprintln(os.Stderr, "vp: cannot load the code:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	hp := p.pkgs["vpharness/h"]
	var names []string
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, *fProp+"_") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			if *fOnly == "" || strings.Contains(n, *fOnly) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "vp: no harness for", *fProp)
		return 2
	}
	e := &Engine{prog: p, thorough: *fTier == "thorough", seen: map[string]int{}, maxStep: *fSteps, covers: map[string]int{}}
	e.workers = *fWorkers
	if e.workers == 0 {
		e.workers = runtime.NumCPU()
		if e.workers > 8 {
			e.workers = 8
		}
	}
	var wg sync.WaitGroup
	e.ws = make([]*worker, e.workers)
	initErr := make([]any, e.workers)
	for i := range e.ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				initErr[i] = recover()
				if initErr[i] != nil && *fVerbose && i == 0 {
					debugf("%s%s", debug.Stack(), e.ws[i].in.where())
				}
			}()
			in := newInterp(e, i)
			e.ws[i] = &worker{e: e, in: in}
			in.needInit(hp)
			in.needInit(p.pkgs["github.com/lyraproj/puppet-parser/parse"])
		}(i)
	}
	wg.Wait()
	for _, x := range initErr {
		if x != nil {
			if tp, ok := x.(targetPanic); ok {
				x = "panic: " + e.ws[0].in.panicText(tp)
			}
			fmt.Fprintln(os.Stderr, "vp: package initialisation cannot be interpreted:", x)
			if *fVerbose {
				panic(x)
			}
			return 2
		}
	}
	var results []*HarnessResult
	start := time.Now()
	total := time.Duration(*fBudget * float64(time.Second))
	for i, n := range names {
		left := total - time.Since(start)
		// later harnesses are guaranteed a share; unused time flows on
		share := left
		if k := len(names) - i; k > 1 {
			share = left * 2 / time.Duration(k+1)
		}
		if share < time.Second {
			share = time.Second
		}
		f := hp.Func(n)
		p.build(f)
		r := e.runHarness(n, f, share)
		results = append(results, r)
		if *fVerbose {
			b, _ := json.Marshal(r)
			fmt.Fprintf(os.Stderr, "%s\n", b)
		}
	}
	for _, w := range e.ws {
		e.stats.queries.Add(w.in.solver.queries)
		e.stats.solverNs.Add(int64(w.in.solver.time))
		e.stats.memo.Add(w.in.stats.memoHits)
		e.stats.forks.Add(w.in.stats.forks.Load())
		e.stats.unknownQ.Add(w.in.stats.unknownQ.Load())
		w.in.solver.Close()
	}
	exploreS := time.Since(start).Seconds()

	// native replay
	replayCases(e.cases)
	known := readKnown(*fKnown)
	viol := map[string]*Case{}
	var order []string
	spurious, agree, disagree := 0, 0, 0
	knownSeen := map[string]string{}
	for _, r := range results {
		for k := range r.Known {
			knownSeen[k] = k
		}
	}
	natUnknown := 0
	for _, c := range e.cases {
		bad := c.Status == "fail" || c.Status == "panic" || c.Status == "timeout" || c.Status == "memory" || c.Status == "crash"
		if c.Status == "" {
			natUnknown++
			continue
		}
		if c.Status == "known" {
			knownSeen[c.Nat] = c.Nat
		}
		if bad {
			key := c.Harness + "|" + msgKey(c.Status, c.Nat)
			if viol[key] == nil {
				viol[key] = c
				order = append(order, key)
			}
			if c.Kind == "sample" {
				disagree++
				if *fVerbose {
					fmt.Fprintf(os.Stderr, "NATIVE-ONLY FAILURE %s %v: %s %s\n", c.Harness, c.Inputs, c.Status, c.Nat)
				}
			}
			continue
		}
		switch c.Kind {
		case "violation":
			spurious++
			if *fVerbose {
				fmt.Fprintf(os.Stderr, "SPURIOUS %s %s in=%v native=%s obs=%v\n", c.Harness, c.Msg, c.Inputs, c.Status, c.NatObs)
			}
		case "abort":
			if *fVerbose && spurious+agree < 5 {
				fmt.Fprintf(os.Stderr, "ABORT %s %s in=%v native=%s obs=%q\n", c.Harness, c.Msg, c.Inputs, c.Status, c.NatObs)
			}
		case "sample":
			ok := c.Status == "ok" && len(c.Obs) == len(c.NatObs)
			if ok {
				for i := range c.Obs {
					if c.Obs[i].L != c.NatObs[i].L || c.Obs[i].V != "\x00?" && validUTF(c.Obs[i].V) != c.NatObs[i].V {
						ok = false
					}
				}
			}
			if ok {
				agree++
			} else {
				disagree++
				if *fVerbose {
					fmt.Fprintf(os.Stderr, "DISAGREE %s in=%v\n  engine %q\n  native %s %q\n", c.Harness, c.Inputs, c.Obs, c.Status, c.NatObs)
				}
			}
		}
	}

	exit := 0
	var vlist []map[string]any
	for _, key := range order {
		c := viol[key]
		path := writeReplay(c)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		fmt.Printf("  harness=%s status=%s message=%s\n", c.Harness, c.Status, oneLine(c.Nat))
		for _, o := range c.NatObs {
			fmt.Printf("  %s=%q\n", o.L, o.V)
		}
		vlist = append(vlist, map[string]any{"harness": c.Harness, "status": c.Status, "message": c.Nat, "inputs": c.Inputs, "observations": c.NatObs})
		exit = 1
		if len(vlist) >= 20 {
			break
		}
	}
	for _, k := range known {
		if k.prop == *fProp && !k.fixed {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.text)
		}
	}
	_ = knownSeen

	// evidence
	var funcs []string
	seen := map[string]bool{}
	encoded := 0
	for _, w := range e.ws {
		for _, f := range w.in.funcs {
			if f.compiled && f.calls > 0 && !seen[f.name] {
				seen[f.name] = true
				encoded++
				if f.repo {
					funcs = append(funcs, strings.ReplaceAll(f.name, "github.com/lyraproj/", ""))
				}
			}
		}
	}
	sort.Strings(funcs)
	incomplete := []string{}
	aborts := map[string]int{}
	var paths int64
	for _, r := range results {
		paths += r.Paths
		if !r.Complete {
			incomplete = append(incomplete, r.Name)
		}
		for k, n := range r.Aborts {
			aborts[k] += n
		}
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": seed(), "level": *fLevel,
		"wall_s": round(time.Since(t0).Seconds()),
		"coverage": map[string]any{
			"states":                        e.stats.nodes.Load(),
			"transitions":                   e.stats.steps.Load(),
			"traces_validated_against_impl": agree,
			"samples":                       samplesOf(e.cases),
			"technique":                     "symbolic execution of the SSA form of /repo's current source; every branch and assertion decided by Z3 for all input values of the path",
			"symbolic_paths":                paths,
			"states_and_transitions":        "states: nodes of the symbolic execution tree (one per path condition); transitions: SSA instructions executed symbolically",
			"branches_with_several_feasible_outcomes_alternatives_queued":                     e.stats.forks.Load(),
			"assertions_proved_by_solver":   e.stats.assertsProved.Load(),
			"assertions_decided_by_folding": e.stats.assertsConst.Load(),
			"assertions_unknown":            e.stats.assertsUnknown.Load(),
			"solver_queries":                e.stats.queries.Load(),
			"solver_verdicts_reused":        e.stats.memo.Load(),
			"solver_unknown":                e.stats.unknownQ.Load(),
			"solver_time_s":                 round(float64(e.stats.solverNs.Load()) / 1e9),
			"solver":                        solverCmd,
			"functions_encoded":             encoded,
			"repo_functions_encoded":        funcs,
			"harnesses":                     results,
			"bounds":                        boundsFor(*fBounds, *fProp, *fTier),
			"bounds_not_exhausted":          incomplete,
			"paths_outside_encoding":        aborts,
			"counterexamples_not_reproduced": spurious,
			"validation_mismatches":         disagree,
			"native_no_answer":              natUnknown,
			"load_s":                        round(loadS),
			"explore_s":                     round(exploreS),
			"violations":                    vlist,
		},
	}
	if *fEvidence != "" {
		os.MkdirAll(filepath.Dir(*fEvidence), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(*fEvidence, append(b, '\n'), 0644)
	}
	fmt.Printf("%s %s: paths=%d forks=%d queries=%d solver=%.1fs proved=%d folded=%d aborted=%d spurious=%d validated=%d mismatches=%d incomplete=%v violations=%d load=%.1fs explore=%.1fs total=%.1fs\n",
		*fProp, *fTier, paths, e.stats.forks.Load(), e.stats.queries.Load(), float64(e.stats.solverNs.Load())/1e9, e.stats.assertsProved.Load(), e.stats.assertsConst.Load(),
		e.stats.aborted.Load(), spurious, agree, disagree, incomplete, len(vlist), loadS, exploreS, time.Since(t0).Seconds())
	return exit
}

func validUTF(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", "\\n") }

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func samplesOf(cs []*Case) []any {
	out := []any{}
	for _, c := range cs {
		if c.Kind == "sample" && c.Status == "ok" && len(c.NatObs) > 0 {
			out = append(out, map[string]any{"harness": c.Harness, "inputs": c.Inputs, "observed": c.NatObs})
			if len(out) >= 12 {
				break
			}
		}
	}
	return out
}

func boundsFor(file, prop, tier string) any {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var m map[string]map[string]any
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m[prop]
}

func writeReplay(c *Case) string {
	dir := *fReplays
	if dir == "" {
		dir = "/tmp"
	}
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(map[string]any{"h": c.Harness, "in": c.Inputs, "status": c.Status, "message": c.Nat, "observed": c.NatObs}, "", " ")
	h := uint32(2166136261)
	for _, x := range b {
		h = (h ^ uint32(x)) * 16777619
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", c.Harness, h))
	os.WriteFile(p, append(b, '\n'), 0644)
	return p
}

type knownEnt struct {
	prop, text string
	fixed      bool
}

func readKnown(file string) []knownEnt {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownEnt
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		k := knownEnt{}
		switch {
		case strings.HasPrefix(l, "fixed: property="):
			k.fixed = true
			l = l[len("fixed: property="):]
		case strings.HasPrefix(l, "known: property="):
			l = l[len("known: property="):]
		default:
			continue
		}
		if i := strings.IndexByte(l, ' '); i > 0 {
			k.prop, k.text = l[:i], l[i+1:]
			out = append(out, k)
		}
	}
	return out
}

// replayCases runs every case natively; a case that kills or hangs the
// process is marked and the rest continues in a new process.
func replayCases(cases []*Case) {
	if *fNative == "" || len(cases) == 0 {
		return
	}
	const chunks = 8
	var wg sync.WaitGroup
	for k := 0; k < chunks; k++ {
		var part []*Case
		for i := k; i < len(cases); i += chunks {
			part = append(part, cases[i])
		}
		wg.Add(1)
		go func(part []*Case) {
			defer wg.Done()
			bad := 0
			for len(part) > 0 && bad < 6 {
				n, crashed := replayBatch(part)
				if crashed {
					bad++
				} else if n < len(part) {
					n = len(part)
				}
				part = part[n:]
			}
		}(part)
	}
	wg.Wait()
}

func replayBatch(part []*Case) (done int, crashed bool) {
	cmd := exec.Command(*fNative)
	cmd.Env = append(os.Environ(), "VP_CLI="+*fCLI)
	if *fTier == "thorough" {
		cmd.Env = append(cmd.Env, "VP_THOROUGH=1")
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range part {
		enc.Encode(map[string]any{"h": c.Harness, "in": c.Inputs})
	}
	cmd.Stdin = &in
	out, err := cmd.StdoutPipe()
	if err != nil {
		return len(part), false
	}
	if err := cmd.Start(); err != nil {
		return len(part), false
	}
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	cur := -1
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "START ") {
			fmt.Sscan(l[6:], &cur)
			continue
		}
		var r struct {
			Status string `json:"status"`
			Msg    string `json:"msg"`
			Obs    []Ob   `json:"obs"`
		}
		if json.Unmarshal([]byte(l), &r) == nil && cur >= 0 && cur < len(part) && r.Status != "" {
			c := part[cur]
			c.Status, c.Nat, c.NatObs = r.Status, r.Msg, r.Obs
		}
	}
	io.Copy(io.Discard, out)
	err = cmd.Wait()
	if cur >= 0 && cur < len(part) && part[cur].Status == "" {
		part[cur].Status, part[cur].Nat = "crash", fmt.Sprint("native process died: ", err)
		return cur + 1, true
	}
	if err != nil {
		return cur + 1, true
	}
	return len(part), false
}
