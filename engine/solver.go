package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Result int8

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one z3 process.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	closer  io.Closer
	gen     int32
	defs    int
	declV   map[string]bool
	declUF  map[int]bool
	queries int64
	time    time.Duration
	errors  int64
	unknown int64
	ctx     *Ctx
	timeout int
}

var solverCmd = "z3"

func NewSolver(ctx *Ctx) *Solver {
	s := &Solver{ctx: ctx, timeout: 20000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.defs = 0
	s.declV = map[string]bool{}
	s.declUF = map[int]bool{}
	s.cmd = exec.Command(solverCmd, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.closer = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.closer.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) emit(e *Expr) {
	switch e.op {
	case OConst:
		return
	case OVar:
		n := refName(e)
		if !s.declV[n] {
			s.declV[n] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(e.w))
		}
		return
	}
	if e.emitted == s.gen {
		return
	}
	e.emitted = s.gen
	if e.a != nil {
		s.emit(e.a)
	}
	if e.b != nil {
		s.emit(e.b)
	}
	if e.c != nil {
		s.emit(e.c)
	}
	for _, a := range e.args {
		s.emit(a)
	}
	s.defs++
	var body string
	switch e.op {
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, refName(e.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, refName(e.a))
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, refName(e.a))
	case ONot, ONeg, OBNot:
		body = fmt.Sprintf("(%s %s)", opNames[e.op], refName(e.a))
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", refName(e.a), refName(e.b), refName(e.c))
	case OTable:
		// group equal values
		groups := map[uint64][]int{}
		for i, t := range e.tab {
			if uint64(i) > mask(e.a.w) {
				break
			}
			groups[t] = append(groups[t], i)
		}
		var keys []uint64
		for k := range groups {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		var sb strings.Builder
		n := 0
		for _, k := range keys[:len(keys)-1] {
			sb.WriteString("(ite (or false")
			for _, i := range groups[k] {
				fmt.Fprintf(&sb, " (= %s %s)", refName(e.a), constName(uint64(i), e.a.w))
			}
			fmt.Fprintf(&sb, ") %s ", constName(k, e.w))
			n++
		}
		sb.WriteString(constName(keys[len(keys)-1], e.w))
		for ; n > 0; n-- {
			sb.WriteByte(')')
		}
		body = sb.String()
	case OUF:
		if !s.declUF[int(e.k)] {
			s.declUF[int(e.k)] = true
			<-ufMu
			d := ufDecls[e.k]
			ufMu <- struct{}{}
			fmt.Fprintf(s.in, "(declare-fun uf%d (", e.k)
			for _, a := range e.args {
				fmt.Fprintf(s.in, "%s ", sortName(a.w))
			}
			fmt.Fprintf(s.in, ") %s)\n", sortName(d.w))
		}
		if len(e.args) == 0 {
			body = fmt.Sprintf("uf%d", e.k)
		} else {
			var sb strings.Builder
			fmt.Fprintf(&sb, "(uf%d", e.k)
			for _, a := range e.args {
				sb.WriteByte(' ')
				sb.WriteString(refName(a))
			}
			sb.WriteByte(')')
			body = sb.String()
		}
	default:
		body = fmt.Sprintf("(%s %s %s)", opNames[e.op], refName(e.a), refName(e.b))
	}
	fmt.Fprintf(s.in, "(define-fun e%d () %s %s)\n", e.id, sortName(e.w), body)
}

// Check decides the conjunction of the given boolean expressions. If want is
// non-nil and the result is Sat, the values of those variables are returned.
func (s *Solver) Check(conj []*Expr, want []*Expr) (Result, []uint64) {
	if s.defs > 60000 {
		s.restart()
	}
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	for _, e := range conj {
		s.emit(e)
	}
	for _, e := range want {
		s.emit(e)
	}
	s.in.WriteString("(push 1)\n")
	for _, e := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", refName(e))
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.errors++
		s.restart()
		return Unknown, nil
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.errors++
		s.restart()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	var res Result
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
		s.unknown++
	default:
		s.errors++
		debugf("solver: %s", line)
		s.restart()
		return Unknown, nil
	}
	var vals []uint64
	if res == Sat && len(want) > 0 {
		s.in.WriteString("(get-value (")
		for _, e := range want {
			s.in.WriteString(refName(e))
			s.in.WriteByte(' ')
		}
		s.in.WriteString("))\n(pop 1)\n")
		s.in.Flush()
		txt := s.readSexp()
		vals = parseValues(txt, len(want))
		if vals == nil {
			debugf("cannot parse model: %s", txt)
			s.errors++
			s.restart()
			return Unknown, nil
		}
	} else {
		s.in.WriteString("(pop 1)\n")
	}
	return res, vals
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

func parseValues(txt string, n int) []uint64 {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	var out []uint64
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch {
		case strings.HasPrefix(t, "#x"):
			v, err := strconv.ParseUint(t[2:], 16, 64)
			if err != nil {
				return nil
			}
			out = append(out, v)
		case strings.HasPrefix(t, "#b"):
			v, err := strconv.ParseUint(t[2:], 2, 64)
			if err != nil {
				return nil
			}
			out = append(out, v)
		case t == "true":
			out = append(out, 1)
		case t == "false":
			out = append(out, 0)
		}
	}
	if len(out) != n {
		return nil
	}
	return out
}

// ---- path conditions

type dom8 [4]uint64

var full8 = dom8{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (d dom8) and(t *[4]uint64) dom8 {
	return dom8{d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]}
}
func (d dom8) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dom8) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d dom8) first() uint64 {
	for i := 0; i < 4; i++ {
		if d[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(d[i]))
		}
	}
	return 0
}
func (d dom8) has(k uint64) bool { return d[(k>>6)&3]>>(k&63)&1 == 1 }

type pathVar struct {
	e       *Expr // the variable
	dom     dom8
	conds   []*Expr
	inMulti bool
	name    string
}

// transKey identifies a one-byte query up to renaming of the byte.
type transKey struct {
	dom dom8
	tt  [4]uint64
}

var sharedTrans sync.Map // transKey -> bool, verdicts of the solver

type multiRes struct {
	r    Result
	vals []uint64
}

// PathCond is the condition of one path.
type PathCond struct {
	ctx    *Ctx
	s      *Solver
	vars   []pathVar
	multi  []*Expr
	trans  map[transKey]bool // memoised solver verdicts for single-byte conditions
	mcache map[string]multiRes
	stats  *Stats
	unk    bool
	lastVs   []int
	lastVals []uint64
}

func (p *PathCond) reset() {
	p.vars = p.vars[:0]
	p.multi = p.multi[:0]
	p.unk = false
}

func (p *PathCond) newVar(w uint8, name string) *Expr {
	i := len(p.vars)
	e := p.ctx.Var(i, w)
	p.vars = append(p.vars, pathVar{e: e, dom: full8, name: name})
	return e
}

func single8(e *Expr) (int, bool) {
	if e.v >= 0 && e.v&1 == 1 {
		return int(e.v >> 1), true
	}
	return 0, false
}

func varsOf(e *Expr) []int32 {
	if e.v >= 0 {
		return []int32{e.v}
	}
	return e.vars
}

// component collects the constraints connected to the variables of cond.
func (p *PathCond) component(conds []*Expr) (cs []*Expr, vs []int) {
	inV := map[int]bool{}
	var add func(e *Expr)
	add = func(e *Expr) {
		for _, v := range varsOf(e) {
			i := int(v >> 1)
			if !inV[i] {
				inV[i] = true
				vs = append(vs, i)
			}
		}
	}
	for _, c := range conds {
		add(c)
	}
	used := make([]bool, len(p.multi))
	for changed := true; changed; {
		changed = false
		for i, m := range p.multi {
			if used[i] {
				continue
			}
			for _, v := range varsOf(m) {
				if inV[int(v>>1)] {
					used[i] = true
					add(m)
					changed = true
					break
				}
			}
		}
	}
	sort.Ints(vs)
	for _, v := range vs {
		cs = append(cs, p.vars[v].conds...)
	}
	for i, m := range p.multi {
		if used[i] {
			cs = append(cs, m)
		}
	}
	return
}

func (p *PathCond) key(vs []int, cs []*Expr, cond []*Expr) string {
	var sb strings.Builder
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if _, ok := single8(c); ok {
			continue
		}
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	for _, v := range vs {
		d := p.vars[v].dom
		fmt.Fprintf(&sb, "%d:%x.%x.%x.%x;", v, d[0], d[1], d[2], d[3])
	}
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	sb.WriteByte('|')
	for _, c := range cond {
		fmt.Fprintf(&sb, "%d,", c.id)
	}
	return sb.String()
}

// checkMulti asks the solver for path ∧ conds.
func (p *PathCond) checkMulti(conds []*Expr) Result {
	cs, vs := p.component(conds)
	key := p.key(vs, cs, conds)
	if r, ok := p.mcache[key]; ok {
		if r.r == Sat {
			p.applyModel(vs, r.vals)
		}
		return r.r
	}
	all := append(append([]*Expr{}, cs...), conds...)
	want := make([]*Expr, len(vs))
	for i, v := range vs {
		want[i] = p.vars[v].e
	}
	r, vals := p.s.Check(all, want)
	p.mcache[key] = multiRes{r, vals}
	if r == Sat {
		p.applyModel(vs, vals)
	}
	if r == Unknown {
		p.stats.unknownQ.Add(1)
	}
	return r
}

func (p *PathCond) applyModel(vs []int, vals []uint64) {
	// the model satisfies the component together with a tentative condition;
	// remember it only as the last model.
	p.lastVs, p.lastVals = vs, vals
}

// feasible reports whether path ∧ cond is satisfiable.
func (p *PathCond) feasible(cond *Expr) Result {
	if cond.op == OConst {
		if cond.k != 0 {
			return Sat
		}
		return Unsat
	}
	if i, ok := single8(cond); ok {
		pv := &p.vars[i]
		nd := pv.dom.and(p.ctx.truth(cond))
		if pv.inMulti {
			if nd.empty() {
				return Unsat
			}
			if nd == pv.dom {
				return Sat
			}
			return p.checkMulti([]*Expr{cond})
		}
		k := transKey{pv.dom, *p.ctx.truth(cond)}
		r0, ok := p.trans[k]
		if !ok {
			if x, found := sharedTrans.Load(k); found {
				r0, ok = x.(bool), true
				p.trans[k] = r0
			}
		}
		if r := r0; ok {
			p.stats.memoHits++
			if r {
				return Sat
			}
			return Unsat
		}
		// first time: the solver decides, cross-checked by the truth table
		all := append(append([]*Expr{}, pv.conds...), cond)
		r, _ := p.s.Check(all, nil)
		if r == Unknown {
			p.stats.unknownQ.Add(1)
			p.unk = true
			return Unknown
		}
		if (r == Sat) == nd.empty() {
			fatalf("solver and truth table disagree on %s: %v", refName(cond), r)
		}
		p.trans[k] = r == Sat
		sharedTrans.Store(k, r == Sat)
		return r
	}
	return p.checkMulti([]*Expr{cond})
}

// assume adds cond (known or believed to be satisfiable with the path).
func (p *PathCond) assume(cond *Expr) {
	if cond.op == OConst {
		return
	}
	if cond.op == OBAnd {
		p.assume(cond.a)
		p.assume(cond.b)
		return
	}
	if i, ok := single8(cond); ok {
		pv := &p.vars[i]
		nd := pv.dom.and(p.ctx.truth(cond))
		if nd == pv.dom {
			return
		}
		pv.dom = nd
		pv.conds = append(pv.conds[:len(pv.conds):len(pv.conds)], cond)
		return
	}
	for _, m := range p.multi {
		if m == cond {
			return
		}
	}
	p.multi = append(p.multi, cond)
	for _, v := range varsOf(cond) {
		p.vars[v>>1].inMulti = true
	}
}

// solve returns a model of the complete path condition (conjoined with extra).
func (p *PathCond) solve(extra ...*Expr) (Result, []uint64) {
	var cs []*Expr
	for i := range p.vars {
		cs = append(cs, p.vars[i].conds...)
	}
	cs = append(cs, p.multi...)
	cs = append(cs, extra...)
	want := make([]*Expr, len(p.vars))
	for i := range p.vars {
		want[i] = p.vars[i].e
	}
	return p.s.Check(cs, want)
}
