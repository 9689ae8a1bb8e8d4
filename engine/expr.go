package main

// Hash-consed bit-vector / boolean expressions with constant folding and
// interval reasoning. Width 0 is the boolean sort.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	ONot
	ONeg
	OZExt
	OSExt
	OTrunc
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OTable // a = index expr, tab = table contents
	OUF    // uninterpreted: name tag k, args list
)

type Expr struct {
	op      Op
	w       uint8
	v       int32 // -1: no variable, >=0: the single variable (index<<1 | is8bit), -2: several
	id      int32
	k       uint64
	a, b, c *Expr
	lo, hi  uint64
	tab     []uint64
	args    []*Expr
	tt      *[4]uint64 // truth table when w==0 and v is an 8 bit variable
	vt      *[256]uint64
	vars    []int32 // sorted variables if v == -2
	emitted int32   // solver generation in which the definition was emitted
}

type exprKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type Ctx struct {
	tabl   map[exprKey]*Expr
	strtab map[string]*Expr // tables / UFs
	n      int32
	tTrue  *Expr
	tFalse *Expr
	vars   []*Expr
	small  [256]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tabl: map[exprKey]*Expr{}, strtab: map[string]*Expr{}}
	c.tTrue = c.cons(OConst, 0, 1, nil, nil, nil)
	c.tFalse = c.cons(OConst, 0, 0, nil, nil, nil)
	for i := range c.small {
		c.small[i] = c.cons(OConst, 8, uint64(i), nil, nil, nil)
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func eid(e *Expr) int32 {
	if e == nil {
		return -1
	}
	return e.id
}

func mergeVars(dst []int32, e *Expr) []int32 {
	if e == nil || e.v == -1 {
		return dst
	}
	if e.v >= 0 {
		return insVar(dst, e.v)
	}
	for _, v := range e.vars {
		dst = insVar(dst, v)
	}
	return dst
}

func insVar(d []int32, v int32) []int32 {
	for i, x := range d {
		if x == v {
			return d
		}
		if x > v {
			d = append(d, 0)
			copy(d[i+1:], d[i:])
			d[i] = v
			return d
		}
	}
	return append(d, v)
}

func (c *Ctx) setVars(e *Expr, ch ...*Expr) {
	v := int32(-1)
	for _, x := range ch {
		if x == nil || x.v == -1 {
			continue
		}
		if v == -1 {
			v = x.v
		} else if v != x.v || v == -2 {
			v = -2
		}
	}
	if v == -2 {
		var vs []int32
		for _, x := range ch {
			vs = mergeVars(vs, x)
		}
		if len(vs) == 1 {
			v = vs[0]
		} else {
			e.vars = vs
		}
	}
	e.v = v
}

func (c *Ctx) cons(op Op, w uint8, k uint64, a, b, cc *Expr) *Expr {
	key := exprKey{op, w, k, eid(a), eid(b), eid(cc)}
	if e, ok := c.tabl[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, k: k, a: a, b: b, c: cc, id: c.n}
	c.n++
	if op == OVar {
		e.v = int32(k) << 1
		if w == 8 {
			e.v |= 1
		}
	} else {
		c.setVars(e, a, b, cc)
	}
	c.interval(e)
	c.tabl[key] = e
	return e
}

func (c *Ctx) interval(e *Expr) {
	m := mask(e.w)
	e.lo, e.hi = 0, m
	a, b := e.a, e.b
	switch e.op {
	case OConst:
		e.lo, e.hi = e.k, e.k
	case OAdd:
		lo, c1 := bits.Add64(a.lo, b.lo, 0)
		hi, c2 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			e.lo, e.hi = lo, hi
		} else if e.w < 64 && lo > m && hi>>1 <= m && hi-(m+1) <= m {
			e.lo, e.hi = lo-(m+1), hi-(m+1) // always wraps once
		} else if e.w == 64 && c1 == 1 && c2 == 1 {
			e.lo, e.hi = lo, hi
		}
	case OSub:
		if a.lo >= b.hi {
			e.lo, e.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			e.lo, e.hi = a.lo*b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			e.lo, e.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			e.hi = b.hi - 1
			if a.hi < e.hi {
				e.hi = a.hi
			}
		}
	case OAnd:
		e.hi = a.hi
		if b.hi < e.hi {
			e.hi = b.hi
		}
	case OOr, OXor:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 {
			e.hi = (uint64(1) << n) - 1
		}
		if e.op == OOr {
			e.lo = a.lo
			if b.lo > e.lo {
				e.lo = b.lo
			}
		}
		if e.hi > m {
			e.hi = m
		}
	case OShl:
		if b.op == OConst && b.k < 64 {
			if a.hi<<b.k>>b.k == a.hi && a.hi<<b.k <= m {
				e.lo, e.hi = a.lo<<b.k, a.hi<<b.k
			}
		}
	case OLShr:
		e.hi = a.hi
		if b.op == OConst && b.k < 64 {
			e.lo, e.hi = a.lo>>b.k, a.hi>>b.k
		}
	case OZExt:
		e.lo, e.hi = a.lo, a.hi
	case OSExt:
		if a.hi < uint64(1)<<(a.w-1) {
			e.lo, e.hi = a.lo, a.hi
		}
	case OTrunc:
		if a.hi <= m {
			e.lo, e.hi = a.lo, a.hi
		}
	case OIte:
		e.lo, e.hi = e.b.lo, e.b.hi
		clo := e.c.lo
		if a.op == OUlt && a.a == e.c && a.b.op == OConst && a.b.k > clo {
			clo = a.b.k // max(c, k)
		}
		if clo < e.lo {
			e.lo = clo
		}
		if e.c.hi > e.hi {
			e.hi = e.c.hi
		}
	}
}

func (c *Ctx) Const(k uint64, w uint8) *Expr {
	k &= mask(w)
	if w == 8 {
		return c.small[k]
	}
	if w == 0 {
		if k != 0 {
			return c.tTrue
		}
		return c.tFalse
	}
	return c.cons(OConst, w, k, nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *Ctx) Var(i int, w uint8) *Expr {
	return c.cons(OVar, w, uint64(i), nil, nil, nil)
}

func (c *Ctx) Table(tab []uint64, w uint8, idx *Expr) *Expr {
	if idx.op == OConst {
		return c.Const(tab[idx.k], w)
	}
	same := true
	for _, t := range tab {
		if t != tab[0] {
			same = false
			break
		}
	}
	if same && idx.hi < uint64(len(tab)) {
		return c.Const(tab[0], w)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "T%d:%d:%v", w, idx.id, tab)
	key := sb.String()
	if e, ok := c.strtab[key]; ok {
		return e
	}
	e := &Expr{op: OTable, w: w, a: idx, id: c.n, tab: append([]uint64(nil), tab...)}
	c.n++
	c.setVars(e, idx)
	e.lo, e.hi = ^uint64(0), 0
	for i, t := range tab {
		if uint64(i) < idx.lo || uint64(i) > idx.hi {
			continue
		}
		if t < e.lo {
			e.lo = t
		}
		if t > e.hi {
			e.hi = t
		}
	}
	if e.lo > e.hi {
		e.lo, e.hi = 0, mask(w)
	}
	c.strtab[key] = e
	return e
}

// UF creates an uninterpreted function application. It is represented as such
// in the solver; functional consistency follows from congruence.
func (c *Ctx) UF(name string, w uint8, args []*Expr) *Expr {
	var sb strings.Builder
	fmt.Fprintf(&sb, "U%s:%d", name, w)
	for _, a := range args {
		fmt.Fprintf(&sb, ":%d", a.id)
	}
	key := sb.String()
	if e, ok := c.strtab[key]; ok {
		return e
	}
	e := &Expr{op: OUF, w: w, id: c.n, args: args}
	e.tab = nil
	c.n++
	c.setVars(e, args...)
	if e.v >= 0 || e.v == -1 {
		// never treat as a finite table of one byte
		if e.v >= 0 {
			e.vars = []int32{e.v}
		}
		e.v = -2
	}
	e.k = uint64(c.ufIndex(name, w, len(args)))
	e.lo, e.hi = 0, mask(w)
	c.strtab[key] = e
	return e
}

type ufDecl struct {
	name  string
	w     uint8
	arity int
}

var ufMu chan struct{} = func() chan struct{} { c := make(chan struct{}, 1); c <- struct{}{}; return c }()
var ufDecls []ufDecl

func ufName(e *Expr) string {
	<-ufMu
	defer func() { ufMu <- struct{}{} }()
	return ufDecls[e.k].name
}

func (c *Ctx) ufIndex(name string, w uint8, n int) int {
	<-ufMu
	defer func() { ufMu <- struct{}{} }()
	for i, d := range ufDecls {
		if d.name == name && d.w == w && d.arity == n {
			return i
		}
	}
	ufDecls = append(ufDecls, ufDecl{name, w, n})
	return len(ufDecls) - 1
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OAnd:
		return x & y, true
	case OOr:
		return x | y, true
	case OXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("foldCmp")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	if a.op == OConst && b.op == OConst {
		if r, ok := foldBin(op, w, a.k, b.k); ok {
			return c.Const(r, w)
		}
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.op == OConst || (b.op != OConst && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		case OSub:
			if b.k == 0 {
				return a
			}
			// keep subtraction when interval shows no wrap; otherwise canonicalise to add
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(a.b.k-b.k, w))
			}
			return c.Bin(OAdd, a, c.Const(-b.k, w))
		case OMul:
			if b.k == 1 {
				return a
			}
			if b.k == 0 {
				return b
			}
		case OUDiv, OSDiv:
			if b.k == 1 {
				return a
			}
		case OAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.hi <= b.k && b.k&(b.k+1) == 0 {
				return a
			}
			if a.op == OAnd && a.b.op == OConst {
				return c.Bin(OAnd, a.a, c.Const(a.b.k&b.k, w))
			}
		case OOr, OXor:
			if b.k == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.k == 0 {
				return a
			}
			if op != OAShr && b.k >= uint64(w) {
				return c.Const(0, w)
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return c.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	e := c.cons(op, w, 0, a, b, nil)
	if e.lo == e.hi {
		return c.Const(e.lo, w)
	}
	return e
}

func (c *Ctx) BvNot(a *Expr) *Expr {
	if a.op == OConst {
		return c.Const(^a.k, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return c.cons(ONot, a.w, 0, a, nil, nil)
}

func (c *Ctx) Neg(a *Expr) *Expr {
	if a.op == OConst {
		return c.Const(-a.k, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.cons(ONeg, a.w, 0, a, nil, nil)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(a.k, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	return c.cons(OZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a, w)
	}
	return c.cons(OSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(a.k, w)
	}
	if a.op == OZExt || a.op == OSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	if a.op == OTrunc {
		return c.Trunc(a.a, w)
	}
	if a.op == OAnd && a.b.op == OConst && a.b.k&mask(w) == mask(w) {
		return c.Trunc(a.a, w)
	}
	if (a.op == OAdd || a.op == OMul || a.op == OAnd || a.op == OOr || a.op == OXor) && a.b.op == OConst {
		return c.Bin(a.op, c.Trunc(a.a, w), c.Const(a.b.k, w))
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	return c.cons(OTrunc, w, 0, a, nil, nil)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.tTrue
	}
	if a.w != b.w {
		panic("eq width mismatch")
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.tFalse
	}
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OSExt:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) == b.k {
				return c.Eq(a.a, c.Const(b.k, a.a.w))
			}
			return c.tFalse
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.k^a.b.k, a.w))
			}
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Or(c.And(a.a, c.Eq(a.b, b)), c.And(c.Not(a.a), c.Eq(a.c, b)))
			}
		}
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	return c.cons(OEq, 0, 0, a, b, nil)
}

func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if op == OEq {
		return c.Eq(a, b)
	}
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(foldCmp(op, a.w, a.k, b.k))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	if op == OSlt || op == OSle {
		half := uint64(1) << (a.w - 1)
		if a.hi < half && b.hi < half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if a.lo >= half && b.hi < half {
			return c.tTrue // a negative, b non negative
		} else if a.hi < half && b.lo >= half {
			return c.tFalse
		}
	}
	if op == OUlt {
		if a.hi < b.lo {
			return c.tTrue
		}
		if a.lo >= b.hi {
			return c.tFalse
		}
	}
	if op == OUle {
		if a.hi <= b.lo {
			return c.tTrue
		}
		if a.lo > b.hi {
			return c.tFalse
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZExt && b.op == OConst && b.k <= mask(a.a.w) {
			return c.Cmp(op, a.a, c.Const(b.k, a.a.w))
		}
		if b.op == OZExt && a.op == OConst && a.k <= mask(b.a.w) {
			return c.Cmp(op, c.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Cmp(op, a.a, b.a)
		}
		// canonical: x <= k  ->  x < k+1 ; k <= x -> !(x < k)
		if op == OUle && b.op == OConst {
			return c.Cmp(OUlt, a, c.Const(b.k+1, a.w)) // b.k < max by interval check above
		}
		if op == OUle && a.op == OConst {
			return c.Not(c.Cmp(OUlt, b, a))
		}
		if op == OUlt && a.op == OConst {
			return c.Not(c.Cmp(OUlt, b, c.Const(a.k+1, a.w)))
		}
	}
	return c.cons(op, 0, 0, a, b, nil)
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.op == OConst {
		return c.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.cons(OBNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.cons(OBAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.cons(OBOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.op == OConst {
		if cond.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == OBNot {
		cond, a, b = cond.a, b, a
	}
	return c.cons(OIte, a.w, 0, cond, a, b)
}

// ---- evaluation

type evaluator struct {
	val  map[*Expr]uint64
	vars func(int) uint64
	uf   func(e *Expr, args []uint64) uint64
	usedUF bool
}

func (ev *evaluator) eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		return ev.vars(int(e.k)) & mask(e.w)
	}
	if r, ok := ev.val[e]; ok {
		return r
	}
	var r uint64
	switch e.op {
	case ONot:
		r = ^ev.eval(e.a) & mask(e.w)
	case ONeg:
		r = -ev.eval(e.a) & mask(e.w)
	case OZExt:
		r = ev.eval(e.a)
	case OSExt:
		r = uint64(sext(ev.eval(e.a), e.a.w)) & mask(e.w)
	case OTrunc:
		r = ev.eval(e.a) & mask(e.w)
	case OEq, OUlt, OUle, OSlt, OSle:
		if foldCmp(e.op, e.a.w, ev.eval(e.a), ev.eval(e.b)) {
			r = 1
		}
	case OBAnd:
		r = ev.eval(e.a)
		if r != 0 {
			r = ev.eval(e.b)
		}
	case OBOr:
		r = ev.eval(e.a)
		if r == 0 {
			r = ev.eval(e.b)
		}
	case OBNot:
		r = 1 - ev.eval(e.a)
	case OIte:
		if ev.eval(e.a) != 0 {
			r = ev.eval(e.b)
		} else {
			r = ev.eval(e.c)
		}
	case OTable:
		i := ev.eval(e.a)
		if i < uint64(len(e.tab)) {
			r = e.tab[i]
		}
	case OUF:
		var as []uint64
		for _, a := range e.args {
			as = append(as, ev.eval(a))
		}
		if ev.uf != nil {
			r = ev.uf(e, as)
		}
	default:
		x, y := ev.eval(e.a), ev.eval(e.b)
		var ok bool
		r, ok = foldBin(e.op, e.w, x, y)
		if !ok { // SMT-LIB division by zero
			if e.op == OSDiv {
				if sext(x, e.w) < 0 {
					r = 1
				} else {
					r = mask(e.w)
				}
			} else {
				r = x
			}
		}
	}
	ev.val[e] = r
	return r
}

// valTable computes the value of e for each value of its single 8-bit variable.
func (c *Ctx) valTable(e *Expr) *[256]uint64 {
	if e.vt != nil {
		return e.vt
	}
	t := new([256]uint64)
	switch e.op {
	case OConst:
		for i := range t {
			t[i] = e.k
		}
		return t
	case OVar:
		for i := range t {
			t[i] = uint64(i)
		}
		e.vt = t
		return t
	}
	var ta, tb, tc *[256]uint64
	if e.a != nil {
		ta = c.valTable(e.a)
	}
	if e.b != nil {
		tb = c.valTable(e.b)
	}
	if e.c != nil {
		tc = c.valTable(e.c)
	}
	m := mask(e.w)
	for i := range t {
		var r uint64
		switch e.op {
		case ONot:
			r = ^ta[i] & m
		case ONeg:
			r = -ta[i] & m
		case OZExt:
			r = ta[i]
		case OSExt:
			r = uint64(sext(ta[i], e.a.w)) & m
		case OTrunc:
			r = ta[i] & m
		case OEq, OUlt, OUle, OSlt, OSle:
			if foldCmp(e.op, e.a.w, ta[i], tb[i]) {
				r = 1
			}
		case OBAnd:
			r = ta[i] & tb[i]
		case OBOr:
			r = ta[i] | tb[i]
		case OBNot:
			r = 1 - ta[i]
		case OIte:
			if ta[i] != 0 {
				r = tb[i]
			} else {
				r = tc[i]
			}
		case OTable:
			if ta[i] < uint64(len(e.tab)) {
				r = e.tab[ta[i]]
			}
		default:
			var ok bool
			r, ok = foldBin(e.op, e.w, ta[i], tb[i])
			if !ok {
				if e.op == OSDiv {
					if sext(ta[i], e.w) < 0 {
						r = 1
					} else {
						r = m
					}
				} else {
					r = ta[i]
				}
			}
		}
		t[i] = r
	}
	e.vt = t
	return t
}

func (c *Ctx) truth(e *Expr) *[4]uint64 {
	if e.tt != nil {
		return e.tt
	}
	vt := c.valTable(e)
	var t [4]uint64
	for i, v := range vt {
		if v != 0 {
			t[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	e.tt = &t
	return e.tt
}

// ---- SMT-LIB output

var opNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", ONot: "bvnot", ONeg: "bvneg",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constName(k uint64, w uint8) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func refName(e *Expr) string {
	switch e.op {
	case OConst:
		return constName(e.k, e.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", e.k, e.w)
	}
	return fmt.Sprintf("e%d", e.id)
}
