package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a value. The interpretation depends on the static type:
//
//	bool, integers, floats: n (signed integers sign extended, floats as
//	    float64 bits) or r = *Expr when symbolic
//	string: r = string or *SStr (symbolic bytes, concrete length)
//	pointer: r = *V or *SymPtr or *Native; nil pointer has r == nil
//	struct, array: r = *Agg
//	slice: r = Slc (nil slice: r == nil)
//	map: r = *MapObj; func: *Closure; interface: *Iface; tuple: Tup
type V struct {
	n uint64
	r any
}

type sb struct {
	e *Expr
	c byte
}

type SStr struct{ b []sb }

type Agg struct{ f []V }

type Slc []V

type Tup []V

type SymPtr struct {
	elems []V
	idx   *Expr
}

type Iface struct {
	t *TI
	v V
}

type Closure struct {
	fn      *Func
	env     []V
	builtin string
	nat     func(in *Interp, args []V) V
}

type Native struct {
	kind string
	x    any
}

type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kFunc
	kIface
	kTuple
	kChan
)

// TI is type information, canonical for identical types (per interpreter).
type TI struct {
	t      types.Type
	k      kind
	w      uint8
	signed bool
	id     int
	elem   *TI
	key    *TI
	fields []*TI
	alen   int
	zero   V
	agg    bool
	meth   map[string]*Func
	impl   map[*TI]bool
	name   string
}

func (t *TI) zeroV() V {
	if t.agg {
		return copyV(t.zero)
	}
	return t.zero
}

func copyV(v V) V {
	a, ok := v.r.(*Agg)
	if !ok {
		return v
	}
	n := &Agg{f: make([]V, len(a.f))}
	for i, x := range a.f {
		if _, ok := x.r.(*Agg); ok {
			n.f[i] = copyV(x)
		} else {
			n.f[i] = x
		}
	}
	return V{r: n}
}

func copyInto(dst *V, src V) {
	if a, ok := src.r.(*Agg); ok {
		if d, ok := dst.r.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				copyInto(&d.f[i], a.f[i])
			}
			return
		}
		*dst = copyV(src)
		return
	}
	*dst = src
}

func (in *Interp) ti(t types.Type) *TI {
	if x := in.tiFast[t]; x != nil {
		return x
	}
	if x := in.tiMap.At(t); x != nil {
		r := x.(*TI)
		in.tiFast[t] = r
		return r
	}
	r := &TI{t: t, id: len(in.tis), name: types.TypeString(t, nil)}
	in.tis = append(in.tis, r)
	in.tiMap.Set(t, r)
	in.tiFast[t] = r
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.k = kBool
			r.w = 0
		case u.Info()&types.IsInteger != 0:
			r.k = kUint
			if u.Info()&types.IsUnsigned == 0 {
				r.k = kInt
				r.signed = true
			}
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.w = 8
			case types.Int16, types.Uint16:
				r.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.w = 32
			default:
				r.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.k = kFloat
			r.w = 64
			if u.Kind() == types.Float32 {
				r.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.k = kComplex
		case u.Info()&types.IsString != 0:
			r.k = kString
			r.zero = V{r: ""}
		case u.Kind() == types.UnsafePointer:
			r.k = kPtr
		}
	case *types.Pointer:
		r.k = kPtr
	case *types.Struct:
		r.k = kStruct
		r.agg = true
		a := &Agg{f: make([]V, u.NumFields())}
		for i := 0; i < u.NumFields(); i++ {
			ft := in.ti(u.Field(i).Type())
			r.fields = append(r.fields, ft)
			a.f[i] = ft.zeroV()
		}
		r.zero = V{r: a}
	case *types.Array:
		r.k = kArray
		r.agg = true
		r.elem = in.ti(u.Elem())
		r.alen = int(u.Len())
		a := &Agg{f: make([]V, r.alen)}
		for i := range a.f {
			a.f[i] = r.elem.zeroV()
		}
		r.zero = V{r: a}
	case *types.Slice:
		r.k = kSlice
		r.elem = in.ti(u.Elem())
	case *types.Map:
		r.k = kMap
		r.key = in.ti(u.Key())
		r.elem = in.ti(u.Elem())
	case *types.Signature:
		r.k = kFunc
	case *types.Interface:
		r.k = kIface
	case *types.Tuple:
		r.k = kTuple
		tu := Tup{}
		for i := 0; i < u.Len(); i++ {
			ft := in.ti(u.At(i).Type())
			r.fields = append(r.fields, ft)
			tu = append(tu, ft.zeroV())
		}
		r.zero = V{r: tu}
	case *types.Chan:
		r.k = kChan
	}
	return r
}

func (t *TI) pointee(in *Interp) *TI {
	if p, ok := t.t.Underlying().(*types.Pointer); ok {
		return in.ti(p.Elem())
	}
	return nil
}

// norm normalises a raw bit pattern for an integer type.
func (t *TI) norm(n uint64) uint64 {
	if t.signed {
		return uint64(sext(n, t.w))
	}
	return n & mask(t.w)
}

// ---- scalars and expressions

func (in *Interp) expr(v V, t *TI) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	return in.ctx.Const(v.n, t.w)
}

func (in *Interp) mk(e *Expr, t *TI) V {
	if e.op == OConst {
		if t.k == kInt || t.k == kUint {
			return V{n: t.norm(e.k)}
		}
		return V{n: e.k}
	}
	return V{r: e}
}

func mkBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func (in *Interp) mkB(e *Expr) V {
	if e.op == OConst {
		return V{n: e.k}
	}
	return V{r: e}
}

func (in *Interp) bexpr(v V) *Expr {
	if e, ok := v.r.(*Expr); ok {
		return e
	}
	return in.ctx.Bool(v.n != 0)
}

func isSym(v V) bool {
	_, ok := v.r.(*Expr)
	return ok
}

func mkFloat(f float64) V { return V{n: math.Float64bits(f)} }

// ---- strings

func strLen(v V) int {
	switch s := v.r.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(fmt.Sprintf("strLen %T", v.r))
}

func (in *Interp) sbs(v V) []sb {
	switch s := v.r.(type) {
	case string:
		out := make([]sb, len(s))
		for i := 0; i < len(s); i++ {
			out[i].c = s[i]
		}
		return out
	case *SStr:
		return s.b
	}
	return nil
}

func mkStr(b []sb) V {
	for i := range b {
		if b[i].e != nil {
			return V{r: &SStr{b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = b[i].c
	}
	return V{r: string(bs)}
}

func S(s string) V { return V{r: s} }

func strSlice(v V, lo, hi int) V {
	switch s := v.r.(type) {
	case string:
		return V{r: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi])
	}
	return V{r: ""}
}

func (in *Interp) strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		if s.b[i].e != nil {
			return V{r: s.b[i].e}
		}
		return V{n: uint64(s.b[i].c)}
	}
	panic("strAt")
}

func (in *Interp) sbV(b sb) V {
	if b.e != nil {
		return V{r: b.e}
	}
	return V{n: uint64(b.c)}
}

func vSb(v V) sb {
	if e, ok := v.r.(*Expr); ok {
		return sb{e: e}
	}
	return sb{c: byte(v.n)}
}

func (in *Interp) sbE(b sb) *Expr {
	if b.e != nil {
		return b.e
	}
	return in.ctx.small[b.c]
}

func (in *Interp) strCat(a, b V) V {
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return V{r: x + y}
		}
		if x == "" {
			return b
		}
	}
	if strLen(b) == 0 {
		return a
	}
	xa, xb := in.sbs(a), in.sbs(b)
	out := make([]sb, 0, len(xa)+len(xb))
	out = append(out, xa...)
	out = append(out, xb...)
	return V{r: &SStr{out}}
}

func (in *Interp) strEq(a, b V) *Expr {
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return in.ctx.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return in.ctx.tFalse
	}
	xa, xb := in.sbs(a), in.sbs(b)
	r := in.ctx.tTrue
	for i := range xa {
		if xa[i].e == nil && xb[i].e == nil {
			if xa[i].c != xb[i].c {
				return in.ctx.tFalse
			}
			continue
		}
	}
	for i := range xa {
		if xa[i].e == nil && xb[i].e == nil {
			continue
		}
		e := in.ctx.Eq(in.sbE(xa[i]), in.sbE(xb[i]))
		r = in.ctx.And(r, e)
		if r == in.ctx.tFalse {
			return r
		}
	}
	return r
}

// strLess forks until the lexicographic order is decided.
func (in *Interp) strCmp(a, b V) int {
	xa, xb := in.sbs(a), in.sbs(b)
	for i := 0; i < len(xa) && i < len(xb); i++ {
		ea, eb := in.sbE(xa[i]), in.sbE(xb[i])
		if in.branch(in.ctx.Eq(ea, eb)) {
			continue
		}
		if in.branch(in.ctx.Cmp(OUlt, ea, eb)) {
			return -1
		}
		return 1
	}
	switch {
	case len(xa) < len(xb):
		return -1
	case len(xa) > len(xb):
		return 1
	}
	return 0
}

func (in *Interp) slcToStr(v V) V {
	s, _ := v.r.(Slc)
	b := make([]sb, len(s))
	for i, x := range s {
		b[i] = vSb(x)
	}
	return mkStr(b)
}

func (in *Interp) strToSlc(v V) V {
	b := in.sbs(v)
	s := make(Slc, len(b))
	for i, x := range b {
		s[i] = in.sbV(x)
	}
	return V{r: s}
}

// concreteStr returns the string when all bytes are concrete.
func concreteStr(v V) (string, bool) {
	if s, ok := v.r.(string); ok {
		return s, true
	}
	if v.r == nil {
		return "", true
	}
	return "", false
}

// ---- maps

type mapEnt struct {
	k, v V
	del  bool
}

type MapObj struct {
	idx map[any]int
	ent []mapEnt
	sym []int // entries with symbolic keys
	n   int
	pre, saved bool
}

func newMap() *MapObj { return &MapObj{idx: map[any]int{}} }

type ikey struct {
	t int
	k any
}

// mapKey yields a canonical comparable key, ok=false when symbolic.
func (in *Interp) mapKey(v V, t *TI) (any, bool) {
	switch t.k {
	case kString:
		if s, ok := concreteStr(v); ok {
			return s, true
		}
		return nil, false
	case kBool, kInt, kUint:
		if isSym(v) {
			return nil, false
		}
		return v.n, true
	case kFloat:
		if isSym(v) {
			return nil, false
		}
		f := math.Float64frombits(v.n)
		return f, true
	case kPtr, kChan:
		return v.r, true
	case kIface:
		i, ok := v.r.(*Iface)
		if !ok {
			return nil, true
		}
		if !types.Comparable(i.t.t) {
			in.rtPanic("hash of unhashable type " + i.t.name)
		}
		k, ok := in.mapKey(i.v, i.t)
		return ikey{i.t.id, k}, ok
	case kStruct, kArray:
		a := v.r.(*Agg)
		var sb strings.Builder
		for i, f := range a.f {
			ft := t.elem
			if t.k == kStruct {
				ft = t.fields[i]
			}
			k, ok := in.mapKey(f, ft)
			if !ok {
				return nil, false
			}
			if ft.k == kPtr {
				fmt.Fprintf(&sb, "%p|", k)
			} else {
				fmt.Fprintf(&sb, "%T:%v|", k, k)
			}
		}
		return sb.String(), true
	}
	in.unsupported("map key of type " + t.name)
	return nil, false
}

// mapFind returns the entry index or -1, forking on symbolic keys.
func (in *Interp) mapFind(m *MapObj, k V, t *TI) int {
	ck, ok := in.mapKey(k, t)
	if ok {
		if i, found := m.idx[ck]; found && !m.ent[i].del {
			return i
		}
		if f, isF := ck.(float64); isF && f != f {
			return -1
		}
		for _, i := range m.sym {
			if m.ent[i].del {
				continue
			}
			if in.branch(in.eqExpr(t, k, m.ent[i].k)) {
				return i
			}
		}
		return -1
	}
	// symbolic key: multiway choice over candidates
	var cands []int
	var conds []*Expr
	none := in.ctx.tTrue
	for i := range m.ent {
		if m.ent[i].del {
			continue
		}
		e := in.eqExpr(t, k, m.ent[i].k)
		if e.op == OConst && e.k == 0 {
			continue
		}
		cands = append(cands, i)
		conds = append(conds, e)
		none = in.ctx.And(none, in.ctx.Not(e))
		if e.op == OConst {
			break
		}
	}
	if len(cands) == 0 {
		return -1
	}
	cands = append(cands, -1)
	conds = append(conds, none)
	return cands[in.choose(conds)]
}

func (in *Interp) mapSet(m *MapObj, k, v V, t *TI) {
	i := in.mapFind(m, k, t)
	in.touchMap(m)
	if i >= 0 {
		m.ent[i].v = v
		return
	}
	i = len(m.ent)
	m.ent = append(m.ent, mapEnt{k: k, v: v})
	m.n++
	if ck, ok := in.mapKey(k, t); ok {
		m.idx[ck] = i
	} else {
		m.sym = append(m.sym, i)
	}
}

func (in *Interp) mapDel(m *MapObj, k V, t *TI) {
	i := in.mapFind(m, k, t)
	in.touchMap(m)
	if i >= 0 {
		m.ent[i].del = true
		m.n--
		if ck, ok := in.mapKey(m.ent[i].k, t); ok {
			delete(m.idx, ck)
		}
	}
}

// ---- equality

func (in *Interp) eqExpr(t *TI, a, b V) *Expr {
	c := in.ctx
	switch t.k {
	case kBool, kInt, kUint:
		if !isSym(a) && !isSym(b) {
			return c.Bool(a.n == b.n)
		}
		return c.Eq(in.expr(a, t), in.expr(b, t))
	case kFloat:
		if !isSym(a) && !isSym(b) {
			return c.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		return c.Eq(in.expr(a, t), in.expr(b, t))
	case kString:
		return in.strEq(a, b)
	case kPtr, kChan, kMap, kFunc, kSlice:
		if t.k == kFunc || t.k == kMap || t.k == kSlice {
			return c.Bool(a.r == nil && b.r == nil)
		}
		if sp, ok := a.r.(*SymPtr); ok {
			_ = sp
			in.unsupported("symbolic pointer comparison")
		}
		return c.Bool(a.r == b.r)
	case kIface:
		x, ok1 := a.r.(*Iface)
		y, ok2 := b.r.(*Iface)
		if !ok1 || !ok2 {
			return c.Bool(!ok1 && !ok2)
		}
		if x.t != y.t {
			return c.tFalse
		}
		if !types.Comparable(x.t.t) {
			in.rtPanic("comparing uncomparable type " + x.t.name)
		}
		return in.eqExpr(x.t, x.v, y.v)
	case kStruct, kArray:
		xa, ya := a.r.(*Agg), b.r.(*Agg)
		r := c.tTrue
		for i := range xa.f {
			ft := t.elem
			if t.k == kStruct {
				ft = t.fields[i]
			}
			r = c.And(r, in.eqExpr(ft, xa.f[i], ya.f[i]))
		}
		return r
	}
	in.unsupported("equality of " + t.name)
	return nil
}

var _ = ssa.Program{}
