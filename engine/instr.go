package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) nilDeref() { in.rtPanic("invalid memory address or nil pointer dereference") }

func (c *comp) instr(i ssa.Instruction) func(fr *frame) {
	in := c.in
	var dst int32 = -1
	if v, ok := i.(ssa.Value); ok {
		dst = c.f.regmap[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		t := in.ti(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) {
			p := fr.in.newCell()
			*p = fr.in.zeroAt(t)
			fr.regs[dst] = V{r: p}
		}
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.ChangeType:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.g(o) }
	case *ssa.ChangeInterface:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.g(o) }
	case *ssa.Convert:
		return c.convert(c.op(x.X), in.ti(x.X.Type()), in.ti(x.Type()), dst)
	case *ssa.MultiConvert:
		return c.convert(c.op(x.X), in.ti(x.X.Type()), in.ti(x.Type()), dst)
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := in.ti(x.X.Type())
		if t.agg {
			return func(fr *frame) { fr.regs[dst] = V{r: &Iface{t, copyV(fr.g(o))}} }
		}
		return func(fr *frame) { fr.regs[dst] = V{r: &Iface{t, fr.g(o)}} }
	case *ssa.MakeClosure:
		f := in.fn(x.Fn.(*ssa.Function))
		var bs []int32
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(fr *frame) {
			env := make([]V, len(bs))
			for i, o := range bs {
				env[i] = fr.g(o)
			}
			fr.regs[dst] = V{r: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeMap:
		return func(fr *frame) {
			m := newMap()
			m.pre = fr.in.initing
			fr.regs[dst] = V{r: m}
		}
	case *ssa.MakeSlice:
		lo, co := c.op(x.Len), c.op(x.Cap)
		et := in.ti(x.Type()).elem
		return func(fr *frame) {
			in := fr.in
			l, cp := in.concInt(fr.g(lo)), in.concInt(fr.g(co))
			if l < 0 || l > 1<<24 {
				in.rtPanic("makeslice: len out of range")
			}
			if cp < l || cp > 1<<24 {
				in.rtPanic("makeslice: cap out of range")
			}
			s := Slc(in.newCells(cp))
			for i := range s {
				s[i] = in.zeroAt(et)
			}
			fr.regs[dst] = V{r: s[:l]}
		}
	case *ssa.FieldAddr:
		o := c.op(x.X)
		f := x.Field
		return func(fr *frame) {
			switch p := fr.g(o).r.(type) {
			case *V:
				fr.regs[dst] = V{r: &p.r.(*Agg).f[f]}
			case nil:
				fr.in.nilDeref()
			case *SymPtr:
				i := fr.in.concInt(V{r: p.idx})
				fr.regs[dst] = V{r: &p.elems[i].r.(*Agg).f[f]}
			default:
				fr.in.unsupported(fmt.Sprintf("field address through %T", p))
			}
		}
	case *ssa.Field:
		o := c.op(x.X)
		f := x.Field
		return func(fr *frame) { fr.regs[dst] = fr.g(o).r.(*Agg).f[f] }
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Index:
		o, io := c.op(x.X), c.op(x.Index)
		it := in.ti(x.Index.Type())
		xt := in.ti(x.X.Type())
		et := in.ti(x.Type())
		if xt.k == kString {
			return c.strIndex(o, io, it, et, dst)
		}
		return func(fr *frame) {
			a := fr.g(o).r.(*Agg)
			i, e := fr.in.boundsIdx(fr.g(io), it, len(a.f))
			if e != nil {
				fr.regs[dst] = fr.in.symIndex(a.f, e, et)
			} else {
				fr.regs[dst] = a.f[i]
			}
		}
	case *ssa.Lookup:
		xt := in.ti(x.X.Type())
		o, io := c.op(x.X), c.op(x.Index)
		if xt.k == kString {
			return c.strIndex(o, io, in.ti(x.Index.Type()), in.ti(x.Type()), dst)
		}
		kt, et := xt.key, xt.elem
		comma := x.CommaOk
		return func(fr *frame) {
			v := et.zero
			ok := false
			if m, is := fr.g(o).r.(*MapObj); is {
				if i := fr.in.mapFind(m, fr.g(io), kt); i >= 0 {
					v, ok = m.ent[i].v, true
				}
			} else {
				fr.in.mapKey(fr.g(io), kt) // may panic on unhashable keys
			}
			v = copyV(v)
			if comma {
				fr.regs[dst] = V{r: Tup{v, mkBool(ok)}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		mo, ko, vo := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := in.ti(x.Map.Type()).key
		return func(fr *frame) {
			m, ok := fr.g(mo).r.(*MapObj)
			if !ok {
				fr.in.rtPanic("assignment to entry in nil map")
			}
			fr.in.mapSet(m, fr.g(ko), copyV(fr.g(vo)), kt)
		}
	case *ssa.Range:
		o := c.op(x.X)
		xt := in.ti(x.X.Type())
		if xt.k == kString {
			return func(fr *frame) { fr.regs[dst] = V{r: &strIter{s: fr.g(o)}} }
		}
		return func(fr *frame) {
			m, _ := fr.g(o).r.(*MapObj)
			fr.regs[dst] = V{r: &mapIter{m: m}}
		}
	case *ssa.Next:
		o := c.op(x.Iter)
		tt := in.ti(x.Type())
		if x.IsString {
			return func(fr *frame) {
				it := fr.g(o).r.(*strIter)
				if it.i >= strLen(it.s) {
					fr.regs[dst] = V{r: Tup{V{}, V{}, V{}}}
					return
				}
				r, sz := fr.in.decodeRune(it.s, it.i)
				fr.regs[dst] = V{r: Tup{mkBool(true), V{n: uint64(it.i)}, r}}
				it.i += sz
			}
		}
		return func(fr *frame) {
			it := fr.g(o).r.(*mapIter)
			for it.m != nil && it.i < len(it.m.ent) {
				e := &it.m.ent[it.i]
				it.i++
				if !e.del {
					fr.regs[dst] = V{r: Tup{mkBool(true), e.k, copyV(e.v)}}
					return
				}
			}
			z := V{}
			_ = tt
			fr.regs[dst] = V{r: Tup{z, z, z}}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Extract:
		o := c.op(x.Tuple)
		k := x.Index
		return func(fr *frame) { fr.regs[dst] = fr.g(o).r.(Tup)[k] }
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := fr.g(o).r.(Slc)
			if len(s) < n {
				fr.in.rtPanic("cannot convert slice to array pointer")
			}
			fr.regs[dst] = V{r: &V{r: &Agg{f: s[:n:n]}}}
		}
	case *ssa.Store:
		ao, vo := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) { fr.store(fr.g(ao), fr.g(vo)) }
	case *ssa.Call:
		return c.call(&x.Call, dst)
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.in.runDefers(fr)
			if fr.panicking {
				panic(fr.panicVal)
			}
		}
	case *ssa.Go:
		return func(fr *frame) { fr.in.unsupported("go statement") }
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return func(fr *frame) { fr.in.unsupported("channel operation") }
	}
	panic(fmt.Sprintf("instruction %T", i))
}

type strIter struct {
	s V
	i int
}
type mapIter struct {
	m *MapObj
	i int
}

func (c *comp) strIndex(o, io int32, it, et *TI, dst int32) func(fr *frame) {
	return func(fr *frame) {
		in := fr.in
		s := fr.g(o)
		n := strLen(s)
		i, e := in.boundsIdx(fr.g(io), it, n)
		if e != nil {
			fr.regs[dst] = in.symIndex(in.strToSlc(s).r.(Slc), e, et)
			return
		}
		fr.regs[dst] = in.strAt(s, i)
	}
}

func (c *comp) indexAddr(x *ssa.IndexAddr, dst int32) func(fr *frame) {
	in := c.in
	o, io := c.op(x.X), c.op(x.Index)
	it := in.ti(x.Index.Type())
	if in.ti(x.X.Type()).k == kSlice {
		return func(fr *frame) {
			s, _ := fr.g(o).r.(Slc)
			iv := fr.g(io)
			if iv.r == nil && iv.n < uint64(len(s)) {
				fr.regs[dst] = V{r: &s[iv.n]}
				return
			}
			i, e := fr.in.boundsIdx(iv, it, len(s))
			if e != nil {
				fr.regs[dst] = V{r: &SymPtr{s, e}}
			} else {
				fr.regs[dst] = V{r: &s[i]}
			}
		}
	}
	return func(fr *frame) {
		p, ok := fr.g(o).r.(*V)
		if !ok {
			if fr.g(o).r == nil {
				fr.in.nilDeref()
			}
			fr.in.unsupported("index address through symbolic pointer")
		}
		a := p.r.(*Agg)
		i, e := fr.in.boundsIdx(fr.g(io), it, len(a.f))
		if e != nil {
			fr.regs[dst] = V{r: &SymPtr{a.f, e}}
		} else {
			fr.regs[dst] = V{r: &a.f[i]}
		}
	}
}

func (c *comp) unop(x *ssa.UnOp, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	t := in.ti(x.Type())
	switch x.Op {
	case token.MUL:
		if !t.agg {
			return func(fr *frame) {
				p := fr.g(o)
				if q, ok := p.r.(*V); ok {
					fr.regs[dst] = *q
					return
				}
				fr.regs[dst] = fr.load(p, t)
			}
		}
		return func(fr *frame) { fr.regs[dst] = fr.load(fr.g(o), t) }
	case token.NOT:
		return func(fr *frame) {
			v := fr.g(o)
			if e, ok := v.r.(*Expr); ok {
				fr.regs[dst] = fr.in.mkB(fr.in.ctx.Not(e))
			} else {
				fr.regs[dst] = V{n: 1 - v.n}
			}
		}
	case token.SUB:
		return func(fr *frame) {
			v := fr.g(o)
			if e, ok := v.r.(*Expr); ok {
				if t.k == kFloat {
					fr.regs[dst] = V{r: fr.in.ctx.Bin(OXor, e, fr.in.ctx.Const(1<<(t.w-1), t.w))}
					return
				}
				fr.regs[dst] = fr.in.mk(fr.in.ctx.Neg(e), t)
			} else if t.k == kFloat {
				fr.regs[dst] = mkFloat(-math.Float64frombits(v.n))
			} else {
				fr.regs[dst] = V{n: t.norm(-v.n)}
			}
		}
	case token.XOR:
		return func(fr *frame) {
			v := fr.g(o)
			if e, ok := v.r.(*Expr); ok {
				fr.regs[dst] = fr.in.mk(fr.in.ctx.BvNot(e), t)
			} else {
				fr.regs[dst] = V{n: t.norm(^v.n)}
			}
		}
	}
	return func(fr *frame) { fr.in.unsupported("unary " + x.Op.String()) }
}

var intOps = map[token.Token][2]Op{ // unsigned, signed
	token.ADD: {OAdd, OAdd}, token.SUB: {OSub, OSub}, token.MUL: {OMul, OMul},
	token.QUO: {OUDiv, OSDiv}, token.REM: {OURem, OSRem},
	token.AND: {OAnd, OAnd}, token.OR: {OOr, OOr}, token.XOR: {OXor, OXor},
}

func (c *comp) binop(x *ssa.BinOp, dst int32) func(fr *frame) {
	in := c.in
	ao, bo := c.op(x.X), c.op(x.Y)
	xt := in.ti(x.X.Type())
	rt := in.ti(x.Type())
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if xt.k == kInt || xt.k == kUint || xt.k == kBool {
			return func(fr *frame) {
				a, b := fr.g(ao), fr.g(bo)
				if a.r == nil && b.r == nil {
					fr.regs[dst] = mkBool((a.n == b.n) != neg)
					return
				}
				e := fr.in.eqExpr(xt, a, b)
				if neg {
					e = fr.in.ctx.Not(e)
				}
				fr.regs[dst] = fr.in.mkB(e)
			}
		}
		yt := in.ti(x.Y.Type())
		return func(fr *frame) {
			a, b := fr.g(ao), fr.g(bo)
			if xt.k == kIface && yt.k != kIface {
				b = V{r: &Iface{yt, b}}
			} else if yt.k == kIface && xt.k != kIface {
				a = V{r: &Iface{xt, a}}
			}
			t := xt
			if yt.k == kIface {
				t = yt
			}
			e := fr.in.eqExpr(t, a, b)
			if neg {
				e = fr.in.ctx.Not(e)
			}
			fr.regs[dst] = fr.in.mkB(e)
		}
	}
	switch xt.k {
	case kString:
		switch x.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[dst] = fr.in.strCat(fr.g(ao), fr.g(bo)) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			op := x.Op
			return func(fr *frame) {
				r := fr.in.strCmp(fr.g(ao), fr.g(bo))
				var b bool
				switch op {
				case token.LSS:
					b = r < 0
				case token.LEQ:
					b = r <= 0
				case token.GTR:
					b = r > 0
				default:
					b = r >= 0
				}
				fr.regs[dst] = mkBool(b)
			}
		}
	case kFloat:
		op := x.Op
		w := xt.w
		return func(fr *frame) {
			a, b := fr.g(ao), fr.g(bo)
			p, q := fr.in.concFloat(a, "arithmetic"), fr.in.concFloat(b, "arithmetic")
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				fr.regs[dst] = mkBool(p < q)
				return
			case token.LEQ:
				fr.regs[dst] = mkBool(p <= q)
				return
			case token.GTR:
				fr.regs[dst] = mkBool(p > q)
				return
			case token.GEQ:
				fr.regs[dst] = mkBool(p >= q)
				return
			default:
				fr.in.unsupported("float op " + op.String())
			}
			if w == 32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = mkFloat(r)
		}
	case kInt, kUint, kBool:
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			swap := x.Op == token.GTR || x.Op == token.GEQ
			strict := x.Op == token.LSS || x.Op == token.GTR
			op := OUle
			if strict {
				op = OUlt
			}
			if xt.signed {
				op = OSle
				if strict {
					op = OSlt
				}
			}
			signed := xt.signed
			return func(fr *frame) {
				a, b := fr.g(ao), fr.g(bo)
				if swap {
					a, b = b, a
				}
				if a.r == nil && b.r == nil {
					var r bool
					if signed {
						if strict {
							r = int64(a.n) < int64(b.n)
						} else {
							r = int64(a.n) <= int64(b.n)
						}
					} else if strict {
						r = a.n < b.n
					} else {
						r = a.n <= b.n
					}
					fr.regs[dst] = mkBool(r)
					return
				}
				fr.regs[dst] = fr.in.mkB(fr.in.ctx.Cmp(op, fr.in.expr(a, xt), fr.in.expr(b, xt)))
			}
		case token.SHL, token.SHR:
			op := OShl
			if x.Op == token.SHR {
				op = OLShr
				if xt.signed {
					op = OAShr
				}
			}
			yt := in.ti(x.Y.Type())
			return func(fr *frame) {
				in := fr.in
				a, b := fr.g(ao), fr.g(bo)
				if yt.signed {
					neg := in.ctx.Cmp(OSlt, in.expr(b, yt), in.ctx.Const(0, yt.w))
					if neg.op == OConst && neg.k == 1 || neg.op != OConst && in.branch(neg) {
						in.rtPanic("negative shift amount")
					}
				}
				if a.r == nil && b.r == nil {
					r, _ := foldBin(op, xt.w, a.n&mask(xt.w), b.n)
					fr.regs[dst] = V{n: rt.norm(r)}
					return
				}
				y := in.expr(b, yt)
				xw := in.ctx.Const(uint64(xt.w), yt.w)
				if yt.w < xt.w {
					y = in.ctx.ZExt(y, xt.w)
				} else if yt.w > xt.w {
					big := in.ctx.Cmp(OUle, xw, y)
					y = in.ctx.Ite(big, in.ctx.Const(uint64(xt.w), xt.w), in.ctx.Trunc(y, xt.w))
				}
				fr.regs[dst] = in.mk(in.ctx.Bin(op, in.expr(a, xt), y), rt)
			}
		case token.AND_NOT:
			return func(fr *frame) {
				a, b := fr.g(ao), fr.g(bo)
				if a.r == nil && b.r == nil {
					fr.regs[dst] = V{n: rt.norm(a.n &^ b.n)}
					return
				}
				fr.regs[dst] = fr.in.mk(fr.in.ctx.Bin(OAnd, fr.in.expr(a, xt), fr.in.ctx.BvNot(fr.in.expr(b, xt))), rt)
			}
		}
		if xt.k == kBool {
			switch x.Op {
			case token.AND, token.LAND:
				return func(fr *frame) {
					fr.regs[dst] = fr.in.mkB(fr.in.ctx.And(fr.in.bexpr(fr.g(ao)), fr.in.bexpr(fr.g(bo))))
				}
			case token.OR, token.LOR:
				return func(fr *frame) {
					fr.regs[dst] = fr.in.mkB(fr.in.ctx.Or(fr.in.bexpr(fr.g(ao)), fr.in.bexpr(fr.g(bo))))
				}
			}
		}
		if ops, ok := intOps[x.Op]; ok {
			op := ops[0]
			if xt.signed {
				op = ops[1]
			}
			div := x.Op == token.QUO || x.Op == token.REM
			add, sub := x.Op == token.ADD, x.Op == token.SUB
			return func(fr *frame) {
				in := fr.in
				a, b := fr.g(ao), fr.g(bo)
				if div {
					z := in.ctx.Eq(in.expr(b, xt), in.ctx.Const(0, xt.w))
					if z.op == OConst && z.k == 1 || z.op != OConst && in.branch(z) {
						in.rtPanic("integer divide by zero")
					}
				}
				if a.r == nil && b.r == nil {
					if add {
						fr.regs[dst] = V{n: rt.norm(a.n + b.n)}
						return
					}
					if sub {
						fr.regs[dst] = V{n: rt.norm(a.n - b.n)}
						return
					}
					r, _ := foldBin(op, xt.w, a.n&mask(xt.w), b.n&mask(xt.w))
					fr.regs[dst] = V{n: rt.norm(r)}
					return
				}
				fr.regs[dst] = in.mk(in.ctx.Bin(op, in.expr(a, xt), in.expr(b, xt)), rt)
			}
		}
	}
	return func(fr *frame) { fr.in.unsupported("binary " + x.Op.String() + " on " + xt.name) }
}

func (in *Interp) convInt(v V, st, dt *TI) V {
	if e, ok := v.r.(*Expr); ok {
		switch {
		case dt.w < st.w:
			e = in.ctx.Trunc(e, dt.w)
		case dt.w > st.w && st.signed:
			e = in.ctx.SExt(e, dt.w)
		case dt.w > st.w:
			e = in.ctx.ZExt(e, dt.w)
		}
		return in.mk(e, dt)
	}
	return V{n: dt.norm(v.n)}
}

func (c *comp) convert(o int32, st, dt *TI, dst int32) func(fr *frame) {
	isInt := func(t *TI) bool { return t.k == kInt || t.k == kUint }
	switch {
	case isInt(st) && isInt(dt):
		return func(fr *frame) { fr.regs[dst] = fr.in.convInt(fr.g(o), st, dt) }
	case isInt(st) && dt.k == kFloat:
		return func(fr *frame) {
			v := fr.g(o)
			if v.r != nil {
				fr.regs[dst] = V{r: fr.in.ctx.UF("i2f", dt.w, []*Expr{v.r.(*Expr)})}
				return
			}
			f := float64(int64(v.n))
			if !st.signed {
				f = float64(v.n)
			}
			if dt.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[dst] = mkFloat(f)
		}
	case st.k == kFloat && isInt(dt):
		return func(fr *frame) {
			v := fr.g(o)
			f := fr.in.concFloat(v, "conversion to integer")
			if dt.signed {
				fr.regs[dst] = V{n: dt.norm(uint64(int64(f)))}
			} else {
				fr.regs[dst] = V{n: dt.norm(uint64(f))}
			}
		}
	case st.k == kFloat && dt.k == kFloat:
		return func(fr *frame) {
			v := fr.g(o)
			if v.r == nil && dt.w == 32 {
				v = mkFloat(float64(float32(math.Float64frombits(v.n))))
			}
			fr.regs[dst] = v
		}
	case isInt(st) && dt.k == kString:
		return func(fr *frame) { fr.regs[dst] = mkStr(fr.in.encodeRune(fr.in.convInt(fr.g(o), st, tiRune))) }
	case st.k == kString && dt.k == kString:
		return func(fr *frame) { fr.regs[dst] = fr.g(o) }
	case st.k == kString && dt.k == kSlice && dt.elem.w == 8:
		return func(fr *frame) { fr.regs[dst] = fr.in.strToSlc(fr.g(o)) }
	case st.k == kString && dt.k == kSlice:
		return func(fr *frame) {
			s := fr.g(o)
			var out Slc = Slc{}
			for i := 0; i < strLen(s); {
				r, n := fr.in.decodeRune(s, i)
				out = append(out, r)
				i += n
			}
			fr.regs[dst] = V{r: out}
		}
	case st.k == kSlice && dt.k == kString && st.elem.w == 8:
		return func(fr *frame) { fr.regs[dst] = fr.in.slcToStr(fr.g(o)) }
	case st.k == kSlice && dt.k == kString:
		return func(fr *frame) {
			s, _ := fr.g(o).r.(Slc)
			var out []sb
			for _, r := range s {
				out = append(out, fr.in.encodeRune(r)...)
			}
			fr.regs[dst] = mkStr(out)
		}
	case st.k == dt.k:
		return func(fr *frame) { fr.regs[dst] = fr.g(o) }
	}
	return func(fr *frame) { fr.in.unsupported("conversion " + st.name + " to " + dt.name) }
}

var tiRune = &TI{k: kInt, w: 32, signed: true, name: "rune"}
var tiInt = &TI{k: kInt, w: 64, signed: true, name: "int"}
var tiByte = &TI{k: kUint, w: 8, name: "byte"}
var tiBool = &TI{k: kBool, name: "bool"}
var tiStr = &TI{k: kString, name: "string"}

// decodeRune models utf8.DecodeRuneInString(s[i:]).
func (in *Interp) decodeRune(s V, i int) (V, int) {
	n := strLen(s)
	if i >= n {
		return V{n: utf8.RuneError}, 0
	}
	if cs, ok := s.r.(string); ok {
		r, sz := utf8.DecodeRuneInString(cs[i:])
		return V{n: uint64(int64(r))}, sz
	}
	return in.decodeBytes(s.r.(*SStr).b[i:])
}

func (in *Interp) decodeBytes(b []sb) (V, int) {
	if len(b) == 0 {
		return V{n: utf8.RuneError}, 0
	}
	c := in.ctx
	m := 4
	if len(b) < m {
		m = len(b)
	}
	conc := true
	for _, x := range b[:m] {
		if x.e != nil {
			conc = false
		}
	}
	if !conc && b[0].e == nil && b[0].c < 0x80 {
		conc = true
		m = 1
	}
	if conc {
		var bs []byte
		for _, x := range b[:m] {
			bs = append(bs, x.c)
		}
		r, sz := utf8.DecodeRune(bs)
		return V{n: uint64(int64(r))}, sz
	}
	e := make([]*Expr, m)
	for i := range e {
		e[i] = in.sbE(b[i])
	}
	rng := func(x *Expr, lo, hi uint64) *Expr {
		return c.And(c.Cmp(OUle, c.Const(lo, 8), x), c.Cmp(OUle, x, c.Const(hi, 8)))
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	// every decision concerns a single byte, which keeps the path condition a
	// conjunction of one-byte constraints
	if in.branch(c.Cmp(OUlt, e[0], c.Const(0x80, 8))) {
		return in.mk(c.ZExt(e[0], 32), tiRune), 1
	}
	type class struct {
		lo, hi, lo1, hi1 uint64
		n                int
	}
	classes := []class{{0xc2, 0xdf, 0x80, 0xbf, 2}, {0xe1, 0xec, 0x80, 0xbf, 3}, {0xee, 0xef, 0x80, 0xbf, 3}, {0xe0, 0xe0, 0xa0, 0xbf, 3}, {0xed, 0xed, 0x80, 0x9f, 3},
		{0xf0, 0xf0, 0x90, 0xbf, 4}, {0xf1, 0xf3, 0x80, 0xbf, 4}, {0xf4, 0xf4, 0x80, 0x8f, 4}}
	var conds []*Expr
	short := c.tFalse // lead bytes whose sequence cannot fit
	var cl []class
	for _, x := range classes {
		g := rng(e[0], x.lo, x.hi)
		if x.n > m {
			short = c.Or(short, g)
			continue
		}
		cl = append(cl, x)
		conds = append(conds, g)
	}
	bad := c.Or(short, c.Or(rng(e[0], 0x80, 0xc1), rng(e[0], 0xf5, 0xff)))
	conds = append(conds, bad)
	pick := in.choose(conds)
	if pick == len(cl) {
		return V{n: utf8.RuneError}, 1
	}
	x := cl[pick]
	if !in.branch(rng(e[1], x.lo1, x.hi1)) {
		return V{n: utf8.RuneError}, 1
	}
	for i := 2; i < x.n; i++ {
		if !in.branch(rng(e[i], 0x80, 0xbf)) {
			return V{n: utf8.RuneError}, 1
		}
	}
	k := x.n - 2
	z := func(x *Expr, mk uint64, sh uint64) *Expr {
		return c.Bin(OShl, c.ZExt(c.Bin(OAnd, x, c.Const(mk, 8)), 32), c.Const(sh, 32))
	}
	atLeast := func(x *Expr, lo uint64) *Expr {
		k := c.Const(lo, 32)
		return c.Ite(c.Cmp(OUlt, x, k), k, x)
	}
	switch k {
	case 0:
		return in.mk(atLeast(c.Bin(OOr, z(e[0], 0x1f, 6), z(e[1], 0x3f, 0)), 0x80), tiRune), 2
	case 1:
		return in.mk(atLeast(c.Bin(OOr, z(e[0], 0x0f, 12), c.Bin(OOr, z(e[1], 0x3f, 6), z(e[2], 0x3f, 0))), 0x800), tiRune), 3
	case 2:
		return in.mk(atLeast(c.Bin(OOr, c.Bin(OOr, z(e[0], 0x07, 18), z(e[1], 0x3f, 12)), c.Bin(OOr, z(e[2], 0x3f, 6), z(e[3], 0x3f, 0))), 0x10000), tiRune), 4
	}
	return V{n: utf8.RuneError}, 1
}

// encodeRune models the UTF-8 encoding of a rune (int32) value.
func (in *Interp) encodeRune(v V) []sb {
	e, ok := v.r.(*Expr)
	if !ok {
		s := string(rune(int32(v.n)))
		out := make([]sb, len(s))
		for i := range out {
			out[i].c = s[i]
		}
		return out
	}
	c := in.ctx
	if e.w < 32 {
		e = c.ZExt(e, 32)
	} else if e.w > 32 {
		e = c.Trunc(e, 32)
	}
	lt := func(k uint64) *Expr { return c.Cmp(OUlt, e, c.Const(k, 32)) }
	by := func(x *Expr) sb {
		if x.op == OConst {
			return sb{c: byte(x.k)}
		}
		return sb{e: x}
	}
	part := func(sh, mk, or uint64) sb {
		x := c.Bin(OAnd, c.Bin(OLShr, e, c.Const(sh, 32)), c.Const(mk, 32))
		return by(c.Bin(OOr, c.Trunc(x, 8), c.Const(or, 8)))
	}
	if in.branch(lt(0x80)) {
		return []sb{by(c.Trunc(e, 8))}
	}
	if in.branch(lt(0x800)) {
		return []sb{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)}
	}
	bad := c.Or(c.And(c.Cmp(OUle, c.Const(0xd800, 32), e), c.Cmp(OUle, e, c.Const(0xdfff, 32))), c.Cmp(OUlt, c.Const(0x10ffff, 32), e))
	if in.branch(bad) {
		return []sb{{c: 0xef}, {c: 0xbf}, {c: 0xbd}}
	}
	if in.branch(lt(0x10000)) {
		return []sb{part(12, 0x0f, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
	}
	return []sb{part(18, 0x07, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)}
}

func (in *Interp) findMethod(t *TI, m *types.Func) *Func {
	name := m.Name()
	if f, ok := t.meth[m.Id()]; ok {
		return f
	}
	in.prog.mu.Lock()
	f := in.prog.prog.LookupMethod(t.t, m.Pkg(), name)
	in.prog.mu.Unlock()
	if t.meth == nil {
		t.meth = map[string]*Func{}
	}
	var r *Func
	if f != nil {
		r = in.fn(f)
	}
	t.meth[m.Id()] = r
	return r
}

// methodByName looks up an exported method on a dynamic type.
func (in *Interp) methodByName(t *TI, name string) *Func {
	key := "." + name
	if f, ok := t.meth[key]; ok {
		return f
	}
	var r *Func
	in.prog.mu.Lock()
	ms := in.prog.prog.MethodSets.MethodSet(t.t)
	if sel := ms.Lookup(nil, name); sel != nil {
		if f := in.prog.prog.MethodValue(sel); f != nil {
			in.prog.mu.Unlock()
			r = in.fn(f)
			in.prog.mu.Lock()
		}
	}
	in.prog.mu.Unlock()
	if t.meth == nil {
		t.meth = map[string]*Func{}
	}
	t.meth[key] = r
	return r
}

func (in *Interp) implements(t *TI, it *TI) bool {
	if r, ok := it.impl[t]; ok {
		return r
	}
	r := types.Implements(t.t, it.t.Underlying().(*types.Interface))
	if it.impl == nil {
		it.impl = map[*TI]bool{}
	}
	it.impl[t] = r
	return r
}

func (c *comp) typeAssert(x *ssa.TypeAssert, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	at := in.ti(x.AssertedType)
	comma := x.CommaOk
	toIface := at.k == kIface
	return func(fr *frame) {
		v := fr.g(o)
		i, ok := v.r.(*Iface)
		var res V
		if ok {
			if toIface {
				ok = fr.in.implements(i.t, at)
				res = v
			} else {
				ok = i.t == at
				res = i.v
			}
		}
		if !ok {
			if !comma {
				d := "nil"
				if i != nil {
					d = i.t.name
				}
				fr.in.rtPanic("interface conversion: interface is " + d + ", not " + at.name)
			}
			res = at.zero
		}
		if comma {
			fr.regs[dst] = V{r: Tup{copyV(res), mkBool(ok)}}
		} else {
			fr.regs[dst] = copyV(res)
		}
	}
}

func (c *comp) slice(x *ssa.Slice, dst int32) func(fr *frame) {
	in := c.in
	o := c.op(x.X)
	var lo, hi, mx int32
	hasLo, hasHi, hasMx := x.Low != nil, x.High != nil, x.Max != nil
	if hasLo {
		lo = c.op(x.Low)
	}
	if hasHi {
		hi = c.op(x.High)
	}
	if hasMx {
		mx = c.op(x.Max)
	}
	xt := in.ti(x.X.Type())
	return func(fr *frame) {
		in := fr.in
		v := fr.g(o)
		var base Slc
		length, capa := 0, 0
		if xt.k == kString {
			length = strLen(v)
			capa = length
		} else if xt.k == kSlice {
			base, _ = v.r.(Slc)
			length, capa = len(base), cap(base)
		} else {
			p, ok := v.r.(*V)
			if !ok {
				in.nilDeref()
			}
			base = Slc(p.r.(*Agg).f)
			base = base[:len(base):len(base)]
			length, capa = len(base), len(base)
		}
		l, h, m := 0, length, capa
		if hasLo {
			l = in.sliceIdx(fr.g(lo), length, capa)
		}
		if hasHi {
			h = in.sliceIdx(fr.g(hi), length, capa)
		}
		if hasMx {
			m = in.sliceIdx(fr.g(mx), length, capa)
		}
		if l < 0 || h < l || m < h || m > capa {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, capa))
		}
		if xt.k == kString {
			fr.regs[dst] = strSlice(v, l, h)
			return
		}
		if base == nil {
			fr.regs[dst] = V{}
			return
		}
		fr.regs[dst] = V{r: base[l:h:m]}
	}
}

func (in *Interp) sliceIdx(v V, length, capa int) int {
	if e, ok := v.r.(*Expr); ok {
		if e.hi-e.lo > 300 {
			// split off out-of-range values
			ok := in.ctx.Cmp(OUle, e, in.ctx.Const(uint64(capa), e.w))
			if !in.branch(ok) {
				return -1
			}
			if capa > 2000 {
				in.unsupported("symbolic slice bound")
			}
			var conds []*Expr
			for i := 0; i <= capa; i++ {
				conds = append(conds, in.ctx.Eq(e, in.ctx.Const(uint64(i), e.w)))
			}
			return in.choose(conds)
		}
		return in.concInt(v)
	}
	return int(int64(v.n))
}

func (c *comp) args(call *ssa.CallCommon) []int32 {
	var as []int32
	for _, a := range call.Args {
		as = append(as, c.op(a))
	}
	return as
}

func (c *comp) call(call *ssa.CallCommon, dst int32) func(fr *frame) {
	in := c.in
	as := c.args(call)
	if call.IsInvoke() {
		o := c.op(call.Value)
		m := call.Method
		n := len(as) + 1
		return func(fr *frame) {
			in := fr.in
			i, ok := fr.g(o).r.(*Iface)
			if !ok {
				in.nilDeref()
			}
			f := in.findMethod(i.t, m)
			if f == nil {
				in.unsupported("method " + m.Name() + " not found on " + i.t.name)
			}
			sp, st := in.sp, in.stack
			args := in.alloc(n)
			args[0] = i.v
			for k, a := range as {
				args[k+1] = fr.g(a)
			}
			fr.regs[dst] = in.invoke(f, args, nil, fr)
			in.sp, in.stack = sp, st
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return c.builtin(b.Name(), call, as, dst)
	}
	n := len(as)
	if f := call.StaticCallee(); f != nil {
		if _, isClosure := call.Value.(*ssa.MakeClosure); !isClosure {
			cf := in.fn(f)
			if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil && f.Pkg != nil && f.Synthetic == "package initializer" {
				pkg := f.Pkg
				return func(fr *frame) { fr.in.needInit(pkg) }
			}
			return func(fr *frame) {
				in := fr.in
				sp, st := in.sp, in.stack
				args := in.alloc(n)
				for k, a := range as {
					args[k] = fr.g(a)
				}
				fr.regs[dst] = in.invoke(cf, args, nil, fr)
				in.sp, in.stack = sp, st
			}
		}
	}
	o := c.op(call.Value)
	return func(fr *frame) {
		in := fr.in
		sp, st := in.sp, in.stack
		args := in.alloc(n)
		for k, a := range as {
			args[k] = fr.g(a)
		}
		cl, ok := fr.g(o).r.(*Closure)
		if !ok {
			in.nilDeref()
		}
		if cl.nat != nil {
			fr.regs[dst] = cl.nat(in, args)
		} else {
			fr.regs[dst] = in.invoke(cl.fn, args, cl.env, fr)
		}
		in.sp, in.stack = sp, st
	}
}

// invoke calls f, merging all its paths into one value when f is pure.
func (in *Interp) invoke(f *Func, args []V, env []V, fr *frame) V {
	if f.intr != nil {
		return f.intr(in, args)
	}
	if !f.compiled {
		in.compile(f)
	}
	if f.pure && anySym(args) {
		if r, ok := in.evalPure(f, args); ok {
			return r
		}
	}
	if in.spec > 0 && !f.pure {
		panic(specAbort{})
	}
	return in.callFn(f, args, env, fr)
}

func (c *comp) deferInstr(x *ssa.Defer) func(fr *frame) {
	call := &x.Call
	as := c.args(call)
	if call.IsInvoke() {
		o := c.op(call.Value)
		m := call.Method
		return func(fr *frame) {
			i, ok := fr.g(o).r.(*Iface)
			if !ok {
				fr.in.nilDeref()
			}
			f := fr.in.findMethod(i.t, m)
			args := []V{i.v}
			for _, a := range as {
				args = append(args, fr.g(a))
			}
			fr.defers = append(fr.defers, deferred{fn: V{r: &Closure{fn: f}}, args: args})
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		f := c.builtin(b.Name(), call, as, -1)
		_ = f
		return func(fr *frame) { fr.in.unsupported("deferred builtin " + b.Name()) }
	}
	o := c.op(call.Value)
	return func(fr *frame) {
		var args []V
		for _, a := range as {
			args = append(args, fr.g(a))
		}
		fr.defers = append(fr.defers, deferred{fn: fr.g(o), args: args})
	}
}

func (c *comp) builtin(name string, call *ssa.CallCommon, as []int32, dst int32) func(fr *frame) {
	in := c.in
	set := func(fr *frame, v V) {
		if dst >= 0 {
			fr.regs[dst] = v
		}
	}
	var t0 *TI
	if len(call.Args) > 0 {
		t0 = in.ti(call.Args[0].Type())
	}
	switch name {
	case "len", "cap":
		isCap := name == "cap"
		a := as[0]
		switch t0.k {
		case kString:
			return func(fr *frame) { set(fr, V{n: uint64(strLen(fr.g(a)))}) }
		case kSlice:
			return func(fr *frame) {
				s, _ := fr.g(a).r.(Slc)
				if isCap {
					set(fr, V{n: uint64(cap(s))})
				} else {
					set(fr, V{n: uint64(len(s))})
				}
			}
		case kMap:
			return func(fr *frame) {
				n := 0
				if m, ok := fr.g(a).r.(*MapObj); ok {
					n = m.n
				}
				set(fr, V{n: uint64(n)})
			}
		case kArray:
			n := t0.alen
			return func(fr *frame) { set(fr, V{n: uint64(n)}) }
		case kPtr:
			n := t0.pointee(in).alen
			return func(fr *frame) { set(fr, V{n: uint64(n)}) }
		}
	case "append":
		a, b := as[0], as[1]
		bt := in.ti(call.Args[1].Type())
		agg := t0.elem.agg
		return func(fr *frame) {
			in := fr.in
			s, _ := fr.g(a).r.(Slc)
			var add Slc
			if bt.k == kString {
				add = in.strToSlc(fr.g(b)).r.(Slc)
			} else {
				add, _ = fr.g(b).r.(Slc)
			}
			if len(add) == 0 {
				if s == nil {
					set(fr, fr.g(a))
				} else {
					set(fr, V{r: s})
				}
				return
			}
			if cap(s)-len(s) >= len(add) {
				n := len(s)
				s = s[:n+len(add)]
				for i, v := range add {
					in.touch(&s[n+i])
					if agg {
						v = copyV(v)
					}
					s[n+i] = v
				}
				set(fr, V{r: s})
				return
			}
			nc := growCap(cap(s), len(s)+len(add))
			ns := Slc(in.newCells(nc))[:len(s)+len(add)]
			copy(ns, s)
			if agg {
				for i, v := range add {
					ns[len(s)+i] = copyV(v)
				}
				for i := len(ns); i < cap(ns); i++ {
					ns[:cap(ns)][i] = t0.elem.zeroV()
				}
				// elements moved to the new array must not alias the old one
				for i := range s {
					ns[i] = copyV(s[i])
				}
			} else {
				copy(ns[len(s):], add)
				z := t0.elem.zero
				if z.r != nil {
					full := ns[:cap(ns)]
					for i := len(ns); i < len(full); i++ {
						full[i] = z
					}
				}
			}
			set(fr, V{r: ns})
		}
	case "copy":
		a, b := as[0], as[1]
		bt := in.ti(call.Args[1].Type())
		return func(fr *frame) {
			in := fr.in
			d, _ := fr.g(a).r.(Slc)
			var src Slc
			if bt.k == kString {
				src = in.strToSlc(fr.g(b)).r.(Slc)
			} else {
				src, _ = fr.g(b).r.(Slc)
			}
			n := len(d)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]V, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyV(src[i])
			}
			for i := 0; i < n; i++ {
				in.touch(&d[i])
				d[i] = tmp[i]
			}
			set(fr, V{n: uint64(n)})
		}
	case "delete":
		a, b := as[0], as[1]
		kt := t0.key
		return func(fr *frame) {
			if m, ok := fr.g(a).r.(*MapObj); ok {
				fr.in.mapDel(m, fr.g(b), kt)
			}
		}
	case "clear":
		a := as[0]
		return func(fr *frame) {
			switch x := fr.g(a).r.(type) {
			case *MapObj:
				fr.in.touchMap(x)
				x.ent, x.idx, x.sym, x.n = nil, map[any]int{}, nil, 0
			case Slc:
				for i := range x {
					fr.in.touch(&x[i])
					x[i] = t0.elem.zeroV()
				}
			}
		}
	case "min", "max":
		return func(fr *frame) {
			in := fr.in
			r := fr.g(as[0])
			for _, a := range as[1:] {
				y := fr.g(a)
				if t0.k == kFloat || t0.k == kString {
					in.unsupported("min/max")
				}
				op := OUlt
				if t0.signed {
					op = OSlt
				}
				lt := in.ctx.Cmp(op, in.expr(y, t0), in.expr(r, t0))
				if name == "max" {
					lt = in.ctx.Cmp(op, in.expr(r, t0), in.expr(y, t0))
				}
				r = in.mk(in.ctx.Ite(lt, in.expr(y, t0), in.expr(r, t0)), t0)
			}
			set(fr, r)
		}
	case "recover":
		return func(fr *frame) {
			c := fr.caller
			if c != nil && c.panicking {
				c.panicking = false
				tp := c.panicVal.(targetPanic)
				set(fr, tp.v)
				return
			}
			set(fr, V{})
		}
	case "panic":
		return func(fr *frame) { panic(targetPanic{v: fr.g(as[0]), trace: fr.in.where()}) }
	case "print", "println":
		return func(fr *frame) {}
	case "ssa:wrapnilchk":
		return func(fr *frame) {
			v := fr.g(as[0])
			if v.r == nil {
				fr.in.nilDeref()
			}
			set(fr, v)
		}
	case "Add", "String", "SliceData", "StringData", "Slice":
		// unsafe helpers: only the strings.Builder idiom is supported
		switch name {
		case "SliceData":
			return func(fr *frame) { set(fr, V{r: &Native{"slicedata", fr.g(as[0])}}) }
		case "StringData":
			return func(fr *frame) { set(fr, V{r: &Native{"stringdata", fr.g(as[0])}}) }
		case "String":
			return func(fr *frame) {
				p, ok := fr.g(as[0]).r.(*Native)
				n := fr.in.concInt(fr.g(as[1]))
				if !ok || p.kind != "slicedata" {
					if n == 0 {
						set(fr, S(""))
						return
					}
					fr.in.unsupported("unsafe.String")
				}
				s := fr.in.slcToStr(p.x.(V))
				set(fr, strSlice(s, 0, n))
			}
		case "Slice":
			return func(fr *frame) {
				p, ok := fr.g(as[0]).r.(*Native)
				n := fr.in.concInt(fr.g(as[1]))
				if !ok || p.kind != "stringdata" {
					fr.in.unsupported("unsafe.Slice")
				}
				s := fr.in.strToSlc(p.x.(V)).r.(Slc)
				set(fr, V{r: s[:n]})
			}
		}
	}
	return func(fr *frame) { fr.in.unsupported("builtin " + name) }
}

func growCap(old, need int) int {
	n := old * 2
	if old > 256 {
		n = old + old/4 + 192
	}
	if n < need {
		n = need
	}
	if n < 4 && old > 0 {
		n = 4
	}
	return n
}

// ---- memory with undo for objects created during package initialisation

func (in *Interp) newCell() *V {
	if in.initing {
		return &in.newCells(1)[0]
	}
	return new(V)
}

func (in *Interp) newCells(n int) []V {
	if !in.initing {
		return make([]V, n)
	}
	if n > 1<<14 {
		return make([]V, n)
	}
	if in.arenaUsed+n > len(in.arena) {
		return make([]V, n)
	}
	r := in.arena[in.arenaUsed : in.arenaUsed+n : in.arenaUsed+n]
	in.arenaUsed += n
	return r
}

// zeroAt returns a zero value whose aggregate cells live in the arena when
// initialising.
func (in *Interp) zeroAt(t *TI) V {
	if !t.agg {
		return t.zero
	}
	if in.initing {
		return in.arenaCopy(t.zero)
	}
	return copyV(t.zero)
}

func (in *Interp) arenaCopy(v V) V {
	a, ok := v.r.(*Agg)
	if !ok {
		return v
	}
	n := &Agg{f: in.newCells(len(a.f))}
	for i, x := range a.f {
		n.f[i] = in.arenaCopy(x)
	}
	return V{r: n}
}
