package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	paths, ended, violations   atomic.Int64
	aborted, known             atomic.Int64
	forks, unknownQ            atomic.Int64
	assertsConst, assertsProved atomic.Int64
	assertsUnknown             atomic.Int64
	steps, nodes               atomic.Int64
	queries, memo, solverNs    atomic.Int64
	memoHits                   int64
}

// Case is one input vector to be replayed natively.
type Case struct {
	Harness string   `json:"h"`
	Inputs  []uint64 `json:"in"`
	Kind    string   `json:"kind"` // violation, sample, abort
	Msg     string   `json:"msg"`
	Obs     []Ob     `json:"obs,omitempty"`
	Status  string   `json:"status,omitempty"` // native outcome
	Nat     string   `json:"nat,omitempty"`
	NatObs  []Ob     `json:"natobs,omitempty"`
}

type Ob struct {
	L string `json:"l"`
	V string `json:"v"`
}

type HarnessResult struct {
	Name      string         `json:"name"`
	Paths     int64          `json:"paths"`
	Discarded int64          `json:"discarded_by_assumption"`
	Known     map[string]int `json:"known,omitempty"`
	Aborts    map[string]int `json:"aborts,omitempty"`
	Complete  bool           `json:"complete"`
	Pending   int            `json:"pending"`
	WallS     float64        `json:"wall_s"`
	Covers    map[string]int `json:"covers,omitempty"`
	Violation int            `json:"violation_candidates"`
	MaxDepth  int            `json:"max_decisions"`
	nAborts   int64
}

type Engine struct {
	prog     *Program
	stats    Stats
	thorough bool
	workers  int
	maxStep  int64

	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]uint16
	busy    int
	stop    bool
	waiting int32

	cur      *HarnessResult
	cases    []*Case
	seen     map[string]int
	deadline time.Time
	ws       []*worker
	samples  int
	funcs    map[string]int64
	fnMu     sync.Mutex
	covers   map[string]int
}

type worker struct {
	e     *Engine
	in    *Interp
	local [][]uint16
	n     int64
}

func newInterp(e *Engine, id int) *Interp {
	in := &Interp{prog: e.prog, eng: e, wid: id}
	in.tiFast = map[typesType]*TI{}
	in.funcs = map[*ssa.Function]*Func{}
	in.globals = map[*ssa.Global]*V{}
	in.inits = map[*ssa.Package]bool{}
	in.rxcache = map[string]*Regex{}
	in.flags = map[string]flagDecl{}
	in.pools = map[*V][]V{}
	in.smaps = map[*V]*MapObj{}
	in.arena = make([]V, 1<<18)
	in.setArena()
	in.maxStep = 1 << 60
	in.newCtx()
	in.rtErrT = in.ti(e.prog.rtErr)
	in.tiAny = in.ti(emptyIface)
	return in
}

func (in *Interp) newCtx() {
	in.ctx = NewCtx()
	if in.solver != nil {
		in.eng.stats.queries.Add(in.solver.queries)
		in.eng.stats.solverNs.Add(int64(in.solver.time))
		in.solver.Close()
	}
	in.solver = NewSolver(in.ctx)
	in.pc = &PathCond{ctx: in.ctx, s: in.solver, trans: map[transKey]bool{}, mcache: map[string]multiRes{}, stats: &in.stats}
}

func (w *worker) pushAlt(p []uint16) { w.local = append(w.local, p) }

func (e *Engine) runHarness(name string, f *ssa.Function, budget time.Duration) *HarnessResult {
	t0 := time.Now()
	res := &HarnessResult{Name: name, Known: map[string]int{}, Aborts: map[string]int{}, Covers: map[string]int{}}
	e.cur = res
	e.queue = [][]uint16{{}}
	e.busy = 0
	e.stop = false
	e.samples = 0
	e.deadline = t0.Add(budget)
	e.cond = sync.NewCond(&e.mu)
	timer := time.AfterFunc(budget, func() {
		e.mu.Lock()
		e.stop = true
		e.cond.Broadcast()
		e.mu.Unlock()
	})
	var wg sync.WaitGroup
	for _, w := range e.ws {
		w.local = nil
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.loop(f)
		}(w)
	}
	wg.Wait()
	timer.Stop()
	res.Pending = len(e.queue)
	for _, w := range e.ws {
		res.Pending += len(w.local)
		w.local = nil
	}
	res.Complete = res.Pending == 0
	res.WallS = time.Since(t0).Seconds()
	return res
}

func (w *worker) loop(f *ssa.Function) {
	e := w.e
	for {
		if len(w.local) == 0 {
			e.mu.Lock()
			for len(e.queue) == 0 && e.busy > 0 && !e.stop {
				atomic.AddInt32(&e.waiting, 1)
				e.cond.Wait()
				atomic.AddInt32(&e.waiting, -1)
			}
			if e.stop || len(e.queue) == 0 {
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			n := len(e.queue) - 1
			w.local = append(w.local, e.queue[n])
			e.queue = e.queue[:n]
			e.busy++
			e.mu.Unlock()
		}
		for len(w.local) > 0 {
			n := len(w.local) - 1
			p := w.local[n]
			w.local = w.local[:n]
			w.path(f, p)
			if e.stop {
				e.mu.Lock()
				e.busy--
				e.cond.Broadcast()
				e.mu.Unlock()
				return
			}
			if atomic.LoadInt32(&e.waiting) > 0 && len(w.local) > 1 {
				e.mu.Lock()
				k := len(w.local) / 2
				e.queue = append(e.queue, w.local[:k]...)
				w.local = append([][]uint16(nil), w.local[k:]...)
				e.cond.Broadcast()
				e.mu.Unlock()
			}
		}
		e.mu.Lock()
		e.busy--
		if e.busy == 0 {
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

func (in *Interp) resetPath(prefix []uint16) {
	in.rollback()
	if in.ctx.n > 1500000 {
		in.newCtx()
	}
	if len(in.pc.trans) > 2000000 || len(in.pc.mcache) > 300000 {
		in.pc.trans = map[transKey]bool{}
		in.pc.mcache = map[string]multiRes{}
	}
	in.pc.reset()
	in.prefix = prefix
	in.trail = in.trail[:0]
	in.obs = nil
	in.stdout, in.stderr, in.rest, in.argv, in.files = nil, nil, nil, nil, nil
	if len(in.pools) > 0 {
		in.pools = map[*V][]V{}
	}
	if len(in.smaps) > 0 {
		in.smaps = map[*V]*MapObj{}
	}
	in.pcovers = in.pcovers[:0]
	in.sp, in.depth, in.spec, in.curFr, in.steps = 0, 0, 0, nil, 0
	in.initing = false
	in.pathViol = false
}

func (w *worker) path(f *ssa.Function, prefix []uint16) {
	in, e := w.in, w.e
	w.n++
	in.resetPath(prefix)
	in.pushAlt = w.pushAlt
	in.maxStep = e.maxStep
	in.curH = f.Name()
	end := "ok"
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case pathEnd:
				end = x.reason
			case pathKnown:
				end = "known:" + x.id
			case pathAbort:
				end = "abort"
				e.abort(in, x.kind+": "+x.msg)
			case targetPanic:
				end = "violation"
				in.curFr = nil
				e.violation(in, "panic: "+in.panicText(x), nil, "panic")
			case pathExit:
				end = "violation"
				e.violation(in, fmt.Sprintf("os.Exit(%d) called", x.code), nil, "panic")
			case specAbort:
				end = "abort"
				e.abort(in, "engine: stray speculation abort")
			default:
				end = "abort"
				msg := fmt.Sprintf("engine: %v", r)
				if os.Getenv("VP_DEBUG") != "" {
					debugf("%s\n%s", msg, debug.Stack())
				}
				e.abort(in, msg)
			}
		}()
		in.callFn(in.fn(f), nil, nil, nil)
	}()
	e.stats.paths.Add(1)
	e.stats.steps.Add(in.steps)
	e.stats.nodes.Add(int64(len(in.trail) - len(prefix) + 1))
	e.mu.Lock()
	res := e.cur
	res.Paths++
	if len(in.trail) > res.MaxDepth {
		res.MaxDepth = len(in.trail)
	}
	switch {
	case end == "assume" || end == "infeasible":
		res.Discarded++
	case strings.HasPrefix(end, "known:"):
		res.Known[end[6:]]++
	}
	for _, c := range in.pcovers {
		res.Covers[c]++
	}
	sample := end == "ok" && !in.pathViol && (res.Paths <= 24 || res.Paths&(res.Paths-1) == 0 || res.Paths%e.sampleEvery(res.Paths) == 0) && e.samples < 400
	if sample {
		e.samples++
	}
	stopEarly := res.nAborts > 3000 || res.Violation > 400
	if stopEarly && !e.stop {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
	if sample {
		in.sample()
	}
}

func (e *Engine) sampleEvery(n int64) int64 {
	switch {
	case n < 1000:
		return 40
	case n < 20000:
		return 400
	case n < 200000:
		return 4000
	}
	return 20000
}

func (in *Interp) panicText(x targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	i, ok := x.v.r.(*Iface)
	if !ok {
		return "nil"
	}
	if x.rt {
		return "runtime error: " + in.msgText(i.v) + x.trace
	}
	return in.msgText(mkStr(in.fmtArg("%v", 'v', x.v))) + x.trace
}

// sample records the model of a completed path for native comparison.
func (in *Interp) sample() {
	r, vals := in.pc.solve()
	if r != Sat {
		if r == Unsat {
			debugf("completed path %v has an unsatisfiable condition in %s", in.trail, in.curH)
		}
		return
	}
	c := &Case{Harness: in.curH, Inputs: vals, Kind: "sample"}
	ev := newEval(vals)
	for _, o := range in.obs {
		b := in.sbs(o.v)
		out := make([]byte, len(b))
		bad := false
		for i, x := range b {
			out[i] = byte(ev.eval(in.sbE(x)))
		}
		if ev.usedUF {
			bad = true
		}
		if bad {
			c.Obs = append(c.Obs, Ob{o.label, "\x00?"})
		} else {
			c.Obs = append(c.Obs, Ob{o.label, string(out)})
		}
	}
	in.eng.mu.Lock()
	in.eng.cases = append(in.eng.cases, c)
	in.eng.mu.Unlock()
}

func msgKey(kind, msg string) string {
	k := kind + "|" + msg
	// concrete offsets in messages do not make them different
	var sb strings.Builder
	for i := 0; i < len(k); i++ {
		if k[i] >= '0' && k[i] <= '9' {
			if i > 0 && k[i-1] >= '0' && k[i-1] <= '9' {
				continue
			}
			sb.WriteByte('#')
			continue
		}
		sb.WriteByte(k[i])
	}
	return sb.String()
}

func (e *Engine) violation(in *Interp, msg string, extra *Expr, kind string) {
	e.stats.violations.Add(1)
	in.pathViol = true
	key := in.curH + "|" + msgKey(kind, msg)
	e.mu.Lock()
	e.cur.Violation++
	e.seen[key]++
	n := e.seen[key]
	e.mu.Unlock()
	if n > 12 && n&(n-1) != 0 {
		return
	}
	e.addCase(in, "violation", msg, extra)
}

func (e *Engine) abort(in *Interp, msg string) {
	e.stats.aborted.Add(1)
	in.pathViol = true
	key := msg
	if len(key) > 160 {
		key = key[:160]
	}
	e.mu.Lock()
	e.cur.Aborts[key]++
	e.cur.nAborts++
	n := e.cur.Aborts[key]
	e.mu.Unlock()
	if n > 60 && n%50 != 0 {
		return
	}
	e.addCase(in, "abort", msg, nil)
}

func (e *Engine) addCase(in *Interp, kind, msg string, extra *Expr) {
	var r Result
	var vals []uint64
	in.spec = 0
	if extra != nil {
		r, vals = in.pc.solve(extra)
	} else {
		r, vals = in.pc.solve()
	}
	if r != Sat {
		return
	}
	c := &Case{Harness: in.curH, Inputs: vals, Kind: kind, Msg: msg}
	e.mu.Lock()
	e.cases = append(e.cases, c)
	e.mu.Unlock()
}

func newEval(vals []uint64) *evaluator {
	ev := &evaluator{val: map[*Expr]uint64{}}
	ev.vars = func(i int) uint64 {
		if i < len(vals) {
			return vals[i]
		}
		return 0
	}
	ev.uf = func(e *Expr, args []uint64) uint64 { ev.usedUF = true; return 0 }
	return ev
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
