package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type termKind uint8

const (
	tNone termKind = iota
	tJump
	tIf
	tRet
	tPanic
)

type phi struct {
	dst int32
	ops []int32
	t   *TI
}

type block struct {
	idx   int
	phis  []phi
	code  []func(fr *frame)
	term  termKind
	cond  int32
	rets  []int32
	succ  [2]*block
	sidx  [2]int // index of this block among the successor's predecessors
	npred int
	pure  bool // every instruction can be executed speculatively
	cost  int
	pos   token.Pos
}

// Func is a compiled function.
type Func struct {
	fn       *ssa.Function
	name     string
	blocks   []*block
	recover  *block
	nregs    int
	consts   []V
	nparams  int
	nfree    int
	hasDefer bool
	pure     bool
	compiled bool
	intr     intrinsic
	rett     *TI
	params   []*TI
	calls    int64
	repo     bool
	regmap   map[ssa.Value]int32
	cmap     map[ssa.Value]int32
}

type intrinsic func(in *Interp, args []V) V

type deferred struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

type frame struct {
	in        *Interp
	fn        *Func
	regs      []V
	block     *block
	caller    *frame
	defers    []deferred
	panicking bool
	panicVal  any
	result    V
}

func (fr *frame) g(o int32) V {
	if o >= 0 {
		return fr.regs[o]
	}
	return fr.fn.consts[^o]
}

// target program panic
type targetPanic struct {
	v     V
	rt    bool
	trace string
}

type pathEnd struct{ reason string } // assumption violated: path discarded
type pathAbort struct {              // engine limitation or bound hit
	kind string
	msg  string
}
type specAbort struct{}
type pathExit struct{ code int } // os.Exit
type goExit struct{}

// Interp is one worker's interpreter.
type Interp struct {
	prog    *Program
	ctx     *Ctx
	solver  *Solver
	pc      *PathCond
	tiMap   typeutil.Map
	tiFast  map[types.Type]*TI
	tis     []*TI
	funcs   map[*ssa.Function]*Func
	globals map[*ssa.Global]*V
	stack   []V
	sp      int
	depth   int
	steps   int64
	maxStep int64
	spec    int
	budget  int
	curFr   *frame
	rtErrT  *TI
	eng     *Engine
	inits   map[*ssa.Package]bool
	initing bool
	journal []journalEnt

	// per path
	prefix  []uint16
	trail   []uint16
	obs     []obsEnt
	stdout  []sb
	stderr  []sb
	stats   Stats
	pcovers []string
	pathViol bool
	curH    string
	arena     []V
	arenaUsed int
	arenaLo, arenaHi uintptr
	pools   map[*V][]V
	smaps   map[*V]*MapObj
	tiAny   *TI
	files   map[string]V
	flags   map[string]flagDecl
	argv    []string
	rest    []string
	covers  map[string]bool
	knowns  []string
	rxcache map[string]*Regex
	pushAlt func(p []uint16)
	wid     int
}

type journalEnt struct {
	p    *V
	old  V
	m    *MapObj
	mold *MapObj
}

type obsEnt struct {
	label string
	v     V
}

func (in *Interp) unsupported(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.initing {
		debugf("init: unsupported: %s", msg)
	}
	panic(pathAbort{"unsupported", msg + in.where()})
}

func (in *Interp) where() string {
	var sb strings.Builder
	for fr, n := in.curFr, 0; fr != nil && n < 6; fr, n = fr.caller, n+1 {
		sb.WriteString(" < " + fr.fn.name)
	}
	return sb.String()
}

func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{v: V{r: &Iface{in.rtErrT, V{r: msg}}}, rt: true, trace: in.where()})
}

// ---- decisions

const forcedBit = 0x8000

// choose picks one of mutually exclusive, exhaustive alternatives.
func (in *Interp) choose(conds []*Expr) int {
	if in.spec > 0 {
		panic(specAbort{})
	}
	live := -1
	n := 0
	for j, c := range conds {
		if c.op == OConst {
			if c.k != 0 {
				return j
			}
			continue
		}
		live = j
		n++
	}
	if n == 1 {
		return live // all others are constantly false
	}
	pos := len(in.trail)
	if pos < len(in.prefix) {
		d := in.prefix[pos]
		in.trail = append(in.trail, d)
		j := int(d &^ forcedBit)
		if d&forcedBit == 0 {
			in.pc.assume(conds[j])
		}
		return j
	}
	first := -1
	var alts []int
	for j, c := range conds {
		if c.op == OConst {
			continue
		}
		r := in.pc.feasible(c)
		if r == Unsat {
			continue
		}
		if r == Unknown {
			in.pc.unk = true
		}
		if first < 0 {
			first = j
		} else {
			alts = append(alts, j)
		}
	}
	if first < 0 {
		// only possible after an "unknown" verdict on the path
		panic(pathEnd{"infeasible"})
	}
	if len(alts) == 0 {
		in.trail = append(in.trail, uint16(first)|forcedBit)
		return first
	}
	in.eng.stats.forks.Add(int64(len(alts)))
	for i := len(alts) - 1; i >= 0; i-- {
		p := make([]uint16, pos+1)
		copy(p, in.trail)
		p[pos] = uint16(alts[i])
		in.pushAlt(p)
	}
	in.trail = append(in.trail, uint16(first))
	in.pc.assume(conds[first])
	return first
}

func (in *Interp) branch(c *Expr) bool {
	if c.op == OConst {
		return c.k != 0
	}
	return in.choose([]*Expr{c, in.ctx.Not(c)}) == 0
}

// concretize forks over the feasible values of a symbolic scalar.
func (in *Interp) concretize(v V, t *TI) V {
	e, ok := v.r.(*Expr)
	if !ok {
		return v
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if i, ok := single8(e); ok {
		pv := &in.pc.vars[i]
		vt := in.ctx.valTable(e)
		seen := map[uint64]bool{}
		var vals []uint64
		var conds []*Expr
		for x := 0; x < 256; x++ {
			if pv.dom.has(uint64(x)) && !seen[vt[x]] {
				seen[vt[x]] = true
				vals = append(vals, vt[x])
				conds = append(conds, in.ctx.Eq(e, in.ctx.Const(vt[x], e.w)))
			}
		}
		if len(vals) == 1 {
			return in.mk(in.ctx.Const(vals[0], e.w), t)
		}
		return in.mk(in.ctx.Const(vals[in.choose(conds)], e.w), t)
	}
	if e.hi-e.lo < 300 {
		var conds []*Expr
		for x := e.lo; x <= e.hi; x++ {
			conds = append(conds, in.ctx.Eq(e, in.ctx.Const(x, e.w)))
		}
		return in.mk(in.ctx.Const(e.lo+uint64(in.choose(conds)), e.w), t)
	}
	in.unsupported("concretization of a wide symbolic value")
	return v
}

func (in *Interp) concInt(v V) int {
	if e, ok := v.r.(*Expr); ok {
		t := &TI{k: kInt, w: e.w, signed: true}
		v = in.concretize(v, t)
	}
	return int(int64(v.n))
}

// ---- calls

func (in *Interp) alloc(n int) []V {
	if in.sp+n > len(in.stack) {
		sz := 1 << 16
		if n > sz {
			sz = n * 2
		}
		in.stack = make([]V, sz)
		in.sp = 0
	}
	r := in.stack[in.sp : in.sp+n : in.sp+n]
	in.sp += n
	return r
}

func (in *Interp) callFn(f *Func, args []V, env []V, caller *frame) V {
	if f.intr != nil {
		return f.intr(in, args)
	}
	if !f.compiled {
		in.compile(f)
		if f.intr != nil {
			return f.intr(in, args)
		}
	}
	f.calls++
	in.depth++
	if in.depth > 6000 {
		in.depth = 0
		panic(pathAbort{"depth", "call depth bound exceeded" + in.where()})
	}
	savedStack, savedSp := in.stack, in.sp
	regs := in.alloc(f.nregs)
	copy(regs, args)
	copy(regs[f.nparams:], env)
	fr := frame{in: in, fn: f, regs: regs, caller: caller}
	fr.block = f.blocks[0]
	saved := in.curFr
	in.curFr = &fr
	if f.hasDefer {
		in.runDeferred(&fr)
	} else {
		in.run(&fr)
	}
	in.curFr = saved
	in.stack, in.sp = savedStack, savedSp
	in.depth--
	return fr.result
}

func (in *Interp) runDeferred(fr *frame) {
	for fr.block != nil {
		in.runOnce(fr)
	}
}

func (in *Interp) runOnce(fr *frame) {
	depth, stack, sp, spec := in.depth, in.stack, in.sp, in.spec
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch r.(type) {
		case targetPanic:
		default:
			panic(r)
		}
		in.depth, in.stack, in.sp, in.spec = depth, stack, sp, spec
		in.curFr = fr
		fr.panicking = true
		fr.panicVal = r
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicVal)
		}
		fr.block = fr.fn.recover
		if fr.block == nil {
			// no named results
			fr.result = fr.fn.rett.zeroV()
			if fr.fn.rett.k == kTuple && len(fr.fn.rett.fields) == 1 {
				fr.result = fr.fn.rett.fields[0].zeroV()
			}
		}
	}()
	in.run(fr)
	fr.block = nil
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
}

func (in *Interp) runDefer(fr *frame, d deferred) {
	ok := false
	depth, stack, sp := in.depth, in.stack, in.sp
	defer func() {
		if !ok {
			r := recover()
			if _, is := r.(targetPanic); !is {
				panic(r)
			}
			in.depth, in.stack, in.sp = depth, stack, sp
			in.curFr = fr
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	in.callV(d.fn, d.args, fr)
	ok = true
}

func (in *Interp) callV(fv V, args []V, caller *frame) V {
	c, ok := fv.r.(*Closure)
	if !ok {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(in, args)
	}
	return in.callFn(c.fn, args, c.env, caller)
}

func (fr *frame) enter(b *block, s int) {
	nb := b.succ[s]
	if len(nb.phis) > 0 {
		fr.doPhis(nb, b.sidx[s])
	}
	fr.block = nb
}

func (fr *frame) doPhis(nb *block, edge int) {
	if len(nb.phis) == 1 {
		p := &nb.phis[0]
		fr.regs[p.dst] = fr.g(p.ops[edge])
		return
	}
	var tmp [8]V
	t := tmp[:0]
	for i := range nb.phis {
		t = append(t, fr.g(nb.phis[i].ops[edge]))
	}
	for i := range nb.phis {
		fr.regs[nb.phis[i].dst] = t[i]
	}
}

func (in *Interp) run(fr *frame) {
	for {
		b := fr.block
		in.steps += int64(b.cost)
		if in.steps > in.maxStep {
			panic(pathAbort{"steps", "step bound exceeded" + in.where()})
		}
		for _, f := range b.code {
			f(fr)
		}
		switch b.term {
		case tJump:
			fr.enter(b, 0)
		case tIf:
			c := fr.g(b.cond)
			if e, ok := c.r.(*Expr); ok {
				in.symIf(fr, b, e)
			} else if c.n != 0 {
				fr.enter(b, 0)
			} else {
				fr.enter(b, 1)
			}
		case tRet:
			switch len(b.rets) {
			case 0:
				fr.result = V{}
			case 1:
				fr.result = fr.g(b.rets[0])
			default:
				t := make(Tup, len(b.rets))
				for i, o := range b.rets {
					t[i] = fr.g(o)
				}
				fr.result = V{r: t}
			}
			return
		case tPanic:
			panic("unreachable terminator in " + fr.fn.name)
		}
	}
}

// ---- if-conversion

type mexit struct {
	tgt   *block
	edges []int
	gs    []*Expr
	guard *Expr
	vals  [][]V // per edge: phi operand values at the time of leaving
}

type merger struct {
	in    *Interp
	fr    *frame
	exits []*mexit
	n     int
	log   []regSave
}

type regSave struct {
	i int32
	v V
}

func (m *merger) exit(tgt *block, edge int, g *Expr) {
	if g.op == OConst && g.k == 0 {
		return
	}
	var vals []V
	for i := range tgt.phis {
		vals = append(vals, m.fr.g(tgt.phis[i].ops[edge]))
	}
	for _, x := range m.exits {
		if x.tgt == tgt && m.mergeable(tgt, x.vals[0], vals) {
			x.edges = append(x.edges, edge)
			x.gs = append(x.gs, g)
			x.vals = append(x.vals, vals)
			x.guard = m.in.ctx.Or(x.guard, g)
			return
		}
	}
	m.exits = append(m.exits, &mexit{tgt, []int{edge}, []*Expr{g}, g, [][]V{vals}})
}

func (m *merger) mergeable(tgt *block, a, b []V) bool {
	for i := range a {
		switch tgt.phis[i].t.k {
		case kBool, kInt, kUint:
		default:
			if !sameV(a[i], b[i], tgt.phis[i].t) {
				return false
			}
		}
	}
	return true
}

func sameV(a, b V, t *TI) bool {
	if a.n != b.n {
		return false
	}
	if a.r == nil || b.r == nil {
		return a.r == nil && b.r == nil
	}
	switch x := a.r.(type) {
	case string:
		y, ok := b.r.(string)
		return ok && x == y
	case *SStr:
		y, ok := b.r.(*SStr)
		return ok && x == y
	case *V, *Expr, *MapObj, *Closure, *Iface, *Agg, *Native:
		return a.r == b.r
	}
	return false
}

// step follows the edge b->succ[s] under guard g.
func (m *merger) step(b *block, s int, g *Expr) {
	if g.op == OConst && g.k == 0 {
		return
	}
	nb := b.succ[s]
	if nb.npred != 1 || !nb.pure || m.n > 48 || !(nb.term == tIf || nb.term == tJump) {
		m.exit(nb, b.sidx[s], g)
		return
	}
	m.n++
	if !m.execPure(nb, b.sidx[s]) {
		m.exit(nb, b.sidx[s], g)
		return
	}
	if nb.term == tJump {
		// only follow if the block does nothing but feed a join
		m.exit(nb.succ[0], nb.sidx[0], g)
		return
	}
	c := m.in.bexpr(m.fr.g(nb.cond))
	m.step(nb, 0, m.in.ctx.And(g, c))
	m.step(nb, 1, m.in.ctx.And(g, m.in.ctx.Not(c)))
}

func (m *merger) execPure(nb *block, edge int) (ok bool) {
	in := m.in
	depth, stack, sp, cur := in.depth, in.stack, in.sp, in.curFr
	defer func() {
		in.spec--
		if !ok {
			r := recover()
			if _, is := r.(specAbort); !is {
				panic(r)
			}
			in.depth, in.stack, in.sp, in.curFr = depth, stack, sp, cur
		}
	}()
	in.spec++
	if len(nb.phis) > 0 {
		m.fr.doPhis(nb, edge)
	}
	in.steps += int64(nb.cost)
	for _, f := range nb.code {
		f(m.fr)
	}
	return true
}

func (in *Interp) symIf(fr *frame, b *block, c *Expr) {
	m := merger{in: in, fr: fr}
	m.step(b, 0, c)
	m.step(b, 1, in.ctx.Not(c))
	var x *mexit
	if len(m.exits) == 1 {
		x = m.exits[0]
	} else {
		conds := make([]*Expr, len(m.exits))
		for i, e := range m.exits {
			conds[i] = e.guard
		}
		x = m.exits[in.choose(conds)]
	}
	t := x.tgt
	if len(t.phis) > 0 {
		vals := x.vals[len(x.vals)-1]
		res := make([]V, len(t.phis))
		copy(res, vals)
		for k := len(x.vals) - 2; k >= 0; k-- {
			for i := range t.phis {
				ti := t.phis[i].t
				a := x.vals[k][i]
				if sameV(a, res[i], ti) {
					continue
				}
				res[i] = in.iteV(x.gs[k], a, res[i], ti)
			}
		}
		for i := range t.phis {
			fr.regs[t.phis[i].dst] = res[i]
		}
	}
	fr.block = t
}

func (in *Interp) iteV(g *Expr, a, b V, t *TI) V {
	switch t.k {
	case kBool, kInt, kUint:
		return in.mk(in.ctx.Ite(g, in.expr(a, t), in.expr(b, t)), t)
	}
	if sameV(a, b, t) {
		return a
	}
	panic(specAbort{})
}

// ---- whole-call merging of pure functions

func (in *Interp) evalPure(f *Func, args []V) (res V, ok bool) {
	if !f.compiled {
		in.compile(f)
	}
	f.calls++
	savedStack, savedSp, depth, cur := in.stack, in.sp, in.depth, in.curFr
	saveBudget := in.budget
	if in.spec == 0 {
		in.budget = 400
	}
	regs := in.alloc(f.nregs)
	copy(regs, args)
	fr := frame{in: in, fn: f, regs: regs, caller: in.curFr}
	in.spec++
	in.curFr = &fr
	nested := in.spec > 1
	defer func() {
		in.spec--
		in.stack, in.sp, in.depth, in.curFr = savedStack, savedSp, depth, cur
		if in.spec == 0 {
			in.budget = saveBudget
		}
		if !ok && !nested {
			r := recover()
			if _, is := r.(specAbort); !is {
				panic(r)
			}
		}
	}()
	res = in.pureRun(&fr, f.blocks[0])
	ok = true
	return
}

func (in *Interp) pureRun(fr *frame, b *block) V {
	for {
		in.budget--
		if in.budget < 0 {
			panic(specAbort{})
		}
		in.steps += int64(b.cost)
		for _, f := range b.code {
			f(fr)
		}
		switch b.term {
		case tJump:
			fr.enter(b, 0)
			b = fr.block
		case tIf:
			c := fr.g(b.cond)
			if e, ok := c.r.(*Expr); ok {
				fr.enter(b, 0)
				v1 := in.pureRun(fr, fr.block)
				fr.enter(b, 1)
				v2 := in.pureRun(fr, fr.block)
				return in.iteV(e, v1, v2, fr.fn.rett)
			}
			if c.n != 0 {
				fr.enter(b, 0)
			} else {
				fr.enter(b, 1)
			}
			b = fr.block
		case tRet:
			return fr.g(b.rets[0])
		default:
			panic(specAbort{})
		}
	}
}

func anySym(args []V) bool {
	for _, a := range args {
		switch a.r.(type) {
		case *Expr, *SStr:
			return true
		}
	}
	return false
}

// ---- functions

func (in *Interp) fn(f *ssa.Function) *Func {
	if x := in.funcs[f]; x != nil {
		return x
	}
	x := &Func{fn: f, name: f.String(), nparams: len(f.Params), nfree: len(f.FreeVars)}
	in.funcs[f] = x
	if f.Origin() != nil {
		if i, ok := intrinsics[f.Origin().String()]; ok {
			x.intr = i
		}
	}
	if i, ok := intrinsics[x.name]; ok {
		x.intr = i
	}
	if p := f.Package(); p != nil {
		x.repo = strings.HasPrefix(p.Pkg.Path(), "github.com/lyraproj/")
	} else if f.Parent() != nil && f.Parent().Package() != nil {
		x.repo = strings.HasPrefix(f.Parent().Package().Pkg.Path(), "github.com/lyraproj/")
	}
	res := f.Signature.Results()
	switch res.Len() {
	case 0:
		x.rett = in.ti(types.NewTuple())
	case 1:
		x.rett = in.ti(res.At(0).Type())
	default:
		x.rett = in.ti(res)
	}
	return x
}

func (in *Interp) ensureBuilt(f *ssa.Function) {
	in.prog.build(f)
}

func staticPure(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			_, isc := x.Y.(*ssa.Const)
			return isc
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.ChangeType, *ssa.Convert, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.IndexAddr, *ssa.Index, *ssa.ChangeInterface:
		return true
	case *ssa.Lookup:
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return !isMap
	case *ssa.Slice:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Phi:
		return true
	case *ssa.TypeAssert:
		return x.CommaOk
	}
	return false
}

func (in *Interp) pureFn(f *ssa.Function, depth int) bool {
	if p, ok := in.prog.pureCache.Load(f); ok {
		return p.(bool)
	}
	if depth > 8 {
		return false
	}
	r := in.pureFn0(f, depth)
	in.prog.pureCache.Store(f, r)
	return r
}

func (in *Interp) pureFn0(f *ssa.Function, depth int) bool {
	if _, ok := pureIntrinsics[f.String()]; ok {
		return true
	}
	if _, ok := intrinsics[f.String()]; ok {
		return false
	}
	in.ensureBuilt(f)
	if len(f.Blocks) == 0 || len(f.Blocks) > 64 || f.Recover != nil || len(f.FreeVars) > 0 {
		return false
	}
	if f.Signature.Results().Len() != 1 {
		return false
	}
	switch b := f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		if b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
			return false
		}
	default:
		return false
	}
	// acyclic?
	state := make([]int, len(f.Blocks))
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b.Index] = 1
		for _, s := range b.Succs {
			if state[s.Index] == 1 || state[s.Index] == 0 && !dfs(s) {
				return false
			}
		}
		state[b.Index] = 2
		return true
	}
	if !dfs(f.Blocks[0]) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if staticPure(i) {
				continue
			}
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				if cf := c.Call.StaticCallee(); cf != nil && cf != f && in.pureFn(cf, depth+1) {
					continue
				}
			}
			return false
		}
	}
	return true
}

// ---- compilation

type comp struct {
	in *Interp
	f  *Func
}

func (in *Interp) compile(f *Func) {
	in.ensureBuilt(f.fn)
	if len(f.fn.Blocks) == 0 {
		name := f.name
		f.intr = func(in *Interp, args []V) V {
			in.unsupported("function without body: " + name)
			return V{}
		}
		f.compiled = true
		return
	}
	f.regmap = map[ssa.Value]int32{}
	f.cmap = map[ssa.Value]int32{}
	c := &comp{in, f}
	n := int32(0)
	for _, p := range f.fn.Params {
		f.regmap[p] = n
		f.params = append(f.params, in.ti(p.Type()))
		n++
	}
	for _, p := range f.fn.FreeVars {
		f.regmap[p] = n
		n++
	}
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				f.regmap[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	f.nregs = int(n)
	f.blocks = make([]*block, len(f.fn.Blocks))
	for i, b := range f.fn.Blocks {
		f.blocks[i] = &block{idx: i, npred: len(b.Preds)}
	}
	for i, b := range f.fn.Blocks {
		c.block(f.blocks[i], b)
	}
	if f.fn.Recover != nil {
		f.recover = f.blocks[f.fn.Recover.Index]
	}
	f.pure = in.pureFn(f.fn, 0)
	f.compiled = true
	f.regmap, f.cmap = nil, nil
}

func (c *comp) op(v ssa.Value) int32 {
	if r, ok := c.f.regmap[v]; ok {
		return r
	}
	if r, ok := c.f.cmap[v]; ok {
		return r
	}
	var val V
	switch x := v.(type) {
	case *ssa.Const:
		val = c.in.constV(x)
	case *ssa.Global:
		val = V{r: c.in.global(x)}
	case *ssa.Function:
		val = V{r: &Closure{fn: c.in.fn(x)}}
	case *ssa.Builtin:
		val = V{r: &Closure{builtin: x.Name()}}
	default:
		panic(fmt.Sprintf("operand %T", v))
	}
	i := int32(len(c.f.consts))
	c.f.consts = append(c.f.consts, val)
	c.f.cmap[v] = ^i
	return ^i
}

func (in *Interp) global(g *ssa.Global) *V {
	if p := in.globals[g]; p != nil {
		return p
	}
	wasInit := in.initing
	in.initing = true
	p := in.newCell()
	*p = in.zeroAt(in.ti(g.Type().Underlying().(*types.Pointer).Elem()))
	in.initing = wasInit
	in.globals[g] = p
	switch g.String() {
	case "os.Stdout":
		*p = V{r: &Native{"file", 1}}
	case "os.Stderr":
		*p = V{r: &Native{"file", 2}}
	case "os.Args":
		*p = V{r: Slc{S("parse")}}
	}
	in.needInit(g.Pkg)
	return p
}

func (in *Interp) constV(x *ssa.Const) V {
	t := in.ti(x.Type())
	if x.Value == nil {
		return t.zeroV()
	}
	switch t.k {
	case kBool:
		return mkBool(constant.BoolVal(x.Value))
	case kInt, kUint:
		if t.signed {
			return V{n: t.norm(uint64(x.Int64()))}
		}
		return V{n: t.norm(x.Uint64())}
	case kFloat:
		return mkFloat(x.Float64())
	case kString:
		if x.Value.Kind() == constant.String {
			return V{r: constant.StringVal(x.Value)}
		}
		return V{r: string(rune(x.Int64()))}
	case kComplex:
		return V{r: &Native{"complex", x.Complex128()}}
	}
	panic("const of type " + t.name)
}

func (c *comp) block(nb *block, b *ssa.BasicBlock) {
	nb.pure = true
	for _, i := range b.Instrs {
		nb.cost++
		if !staticPure(i) {
			ok := false
			if call, is := i.(*ssa.Call); is {
				if bi, is := call.Call.Value.(*ssa.Builtin); is && bi.Name() == "len" {
					ok = true
				} else if cf := call.Call.StaticCallee(); cf != nil && c.in.pureFn(cf, 0) {
					ok = true
				}
			}
			if !ok {
				nb.pure = false
			}
		}
		switch x := i.(type) {
		case *ssa.Phi:
			p := phi{dst: c.f.regmap[x], t: c.in.ti(x.Type())}
			for _, e := range x.Edges {
				p.ops = append(p.ops, c.op(e))
			}
			nb.phis = append(nb.phis, p)
		case *ssa.DebugRef:
		case *ssa.Jump:
			nb.term = tJump
			c.edge(nb, b, 0)
		case *ssa.If:
			nb.term = tIf
			nb.cond = c.op(x.Cond)
			c.edge(nb, b, 0)
			c.edge(nb, b, 1)
		case *ssa.Return:
			nb.term = tRet
			for _, r := range x.Results {
				nb.rets = append(nb.rets, c.op(r))
			}
		case *ssa.Panic:
			nb.term = tPanic
			o := c.op(x.X)
			nb.code = append(nb.code, func(fr *frame) {
				v := fr.g(o)
				if v.r == nil {
					fr.in.rtPanic("panic called with nil argument")
				}
				panic(targetPanic{v: v, trace: fr.in.where()})
			})
		default:
			nb.code = append(nb.code, c.instr(i))
		}
	}
	nb.pos = b.Instrs[0].Pos()
}

func (c *comp) edge(nb *block, b *ssa.BasicBlock, s int) {
	t := b.Succs[s]
	nb.succ[s] = c.f.blocks[t.Index]
	// index of the edge among t.Preds; duplicates (both successors equal) are
	// matched in order
	k := 0
	for j := 0; j < s; j++ {
		if b.Succs[j] == t {
			k++
		}
	}
	for pi, p := range t.Preds {
		if p == b {
			if k == 0 {
				nb.sidx[s] = pi
				return
			}
			k--
		}
	}
	panic("edge")
}

func (fr *frame) store(p V, v V) {
	in := fr.in
	switch x := p.r.(type) {
	case *V:
		in.touch(x)
		copyInto(x, v)
	case *SymPtr:
		if in.spec > 0 {
			panic(specAbort{})
		}
		i := in.concInt(V{r: x.idx})
		in.touch(&x.elems[i])
		copyInto(&x.elems[i], v)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	default:
		in.unsupported(fmt.Sprintf("store through %T", p.r))
	}
}

// touch records the old contents of a cell that outlives the path.
func (in *Interp) touch(p *V) {
	if a := uintptr(unsafe.Pointer(p)); a >= in.arenaLo && a < in.arenaHi && !in.initing {
		in.journal = append(in.journal, journalEnt{p: p, old: copyV(*p)})
	}
}

func (in *Interp) touchMap(m *MapObj) {
	if m.pre && !in.initing && !m.saved {
		m.saved = true
		o := &MapObj{idx: make(map[any]int, len(m.idx)), n: m.n}
		for k, v := range m.idx {
			o.idx[k] = v
		}
		o.ent = append(o.ent, m.ent...)
		o.sym = append(o.sym, m.sym...)
		in.journal = append(in.journal, journalEnt{m: m, mold: o})
	}
}

func (in *Interp) rollback() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		j := &in.journal[i]
		if j.m != nil {
			j.m.idx, j.m.ent, j.m.sym, j.m.n, j.m.saved = j.mold.idx, j.mold.ent, j.mold.sym, j.mold.n, false
		} else {
			copyInto(j.p, j.old)
		}
	}
	in.journal = in.journal[:0]
}

func (fr *frame) load(p V, t *TI) V {
	in := fr.in
	switch x := p.r.(type) {
	case *V:
		if t.agg {
			return copyV(*x)
		}
		return *x
	case *SymPtr:
		return in.symIndex(x.elems, x.idx, t)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	default:
		in.unsupported(fmt.Sprintf("load through %T", p.r))
	}
	return V{}
}

// symIndex reads elems[idx] for a symbolic, in-range index.
func (in *Interp) symIndex(elems []V, idx *Expr, t *TI) V {
	scalar := t.k == kBool || t.k == kInt || t.k == kUint
	if scalar {
		conc := true
		for _, e := range elems {
			if e.r != nil {
				conc = false
				break
			}
		}
		if conc && len(elems) <= 1024 {
			tab := make([]uint64, len(elems))
			for i, e := range elems {
				tab[i] = e.n & mask(t.w)
			}
			return in.mk(in.ctx.Table(tab, t.w, idx), t)
		}
		if len(elems) <= 64 {
			r := in.expr(elems[0], t)
			for i := 1; i < len(elems); i++ {
				r = in.ctx.Ite(in.ctx.Eq(idx, in.ctx.Const(uint64(i), idx.w)), in.expr(elems[i], t), r)
			}
			return in.mk(r, t)
		}
	}
	i := in.concInt(V{r: idx})
	if t.agg {
		return copyV(elems[i])
	}
	return elems[i]
}

// boundsIdx checks 0 <= idx < n and returns either a concrete index or the
// symbolic expression.
func (in *Interp) boundsIdx(v V, t *TI, n int) (int, *Expr) {
	if e, ok := v.r.(*Expr); ok {
		if e.w < 64 {
			if t.signed {
				e = in.ctx.SExt(e, 64)
			} else {
				e = in.ctx.ZExt(e, 64)
			}
		}
		ok := in.ctx.Cmp(OUlt, e, in.ctx.Const(uint64(n), 64))
		if !in.branch(ok) {
			in.rtPanic("index out of range")
		}
		if e.op == OConst {
			return int(e.k), nil
		}
		return 0, e
	}
	i := int64(v.n)
	if t.k == kUint && i < 0 {
		i = math.MaxInt64
	}
	if i < 0 || i >= int64(n) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return int(i), nil
}
