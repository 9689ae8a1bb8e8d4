package main

import (
	"encoding/json"
	"strings"
)

// The engine side of the harness API (package vpharness/vp).

func vpIntrinsics(m map[string]intrinsic) {
	const p = "vpharness/vp."
	m[p+"Byte"] = func(in *Interp, a []V) V { return V{r: in.newInput(8)} }
	m[p+"Bool"] = func(in *Interp, a []V) V {
		e := in.newInput(8)
		in.pc.assume(in.ctx.Cmp(OUlt, e, in.ctx.small[2]))
		return in.mkB(in.ctx.Eq(e, in.ctx.small[1]))
	}
	m[p+"Bytes"] = func(in *Interp, a []V) V {
		n := in.concInt(a[0])
		b := make([]sb, n)
		for i := range b {
			b[i].e = in.newInput(8)
		}
		return mkStr(b)
	}
	m[p+"ByteOf"] = func(in *Interp, a []V) V { return in.sbV(in.byteOf(in.mustStr(a[0], "alphabet"))) }
	m[p+"BytesOf"] = func(in *Interp, a []V) V {
		n := in.concInt(a[1])
		b := make([]sb, n)
		al := in.mustStr(a[0], "alphabet")
		for i := range b {
			b[i] = in.byteOf(al)
		}
		return mkStr(b)
	}
	m[p+"Choose"] = func(in *Interp, a []V) V {
		n := in.concInt(a[0])
		if n > 255 || n < 1 {
			panic("Choose out of range")
		}
		e := in.newInput(8)
		in.pc.assume(in.ctx.Cmp(OUlt, e, in.ctx.Const(uint64(n), 8)))
		if n == 1 {
			return V{}
		}
		conds := make([]*Expr, n)
		for i := range conds {
			conds[i] = in.ctx.Eq(e, in.ctx.small[i])
		}
		return V{n: uint64(in.choose(conds))}
	}
	m[p+"Int"] = func(in *Interp, a []V) V {
		e := in.newInput(64)
		lo, hi := in.ctx.Const(a[0].n, 64), in.ctx.Const(a[1].n, 64)
		in.pc.assume(in.ctx.Cmp(OSle, lo, e))
		in.pc.assume(in.ctx.Cmp(OSle, e, hi))
		return V{r: e}
	}
	m[p+"Assume"] = func(in *Interp, a []V) V {
		if in.spec > 0 {
			panic(specAbort{})
		}
		c := in.bexpr(a[0])
		if c.op == OConst {
			if c.k == 0 {
				panic(pathEnd{"assume"})
			}
			return V{}
		}
		if len(in.trail) >= len(in.prefix) {
			if in.pc.feasible(c) == Unsat {
				panic(pathEnd{"assume"})
			}
		}
		in.pc.assume(c)
		return V{}
	}
	m[p+"Assert"] = func(in *Interp, a []V) V { in.assert(in.bexpr(a[0]), a[1]); return V{} }
	m[p+"Fail"] = func(in *Interp, a []V) V { in.assert(in.ctx.tFalse, a[0]); return V{} }
	m[p+"Cover"] = func(in *Interp, a []V) V {
		s := in.mustStr(a[0], "cover")
		in.pcovers = append(in.pcovers, s)
		return V{}
	}
	m[p+"Observe"] = func(in *Interp, a []V) V {
		in.obs = append(in.obs, obsEnt{in.mustStr(a[0], "label"), a[1]})
		return V{}
	}
	m[p+"Thorough"] = func(in *Interp, a []V) V { return mkBool(in.eng.thorough) }
	m[p+"Known"] = func(in *Interp, a []V) V {
		if in.branch(in.bexpr(a[1])) {
			panic(pathKnown{in.mustStr(a[0], "id")})
		}
		return V{}
	}
	m[p+"RunCLI"] = func(in *Interp, a []V) V {
		if in.spec > 0 {
			panic(specAbort{})
		}
		in.argv = nil
		for _, x := range argSlc(a[0]) {
			in.argv = append(in.argv, in.mustStr(x, "argument"))
		}
		in.files = map[string]V{in.mustStr(a[1], "file"): a[2]}
		in.stdout, in.stderr, in.rest = nil, nil, nil
		code := in.runMain()
		return tup(V{n: uint64(int64(code))}, mkStr(in.stdout), mkStr(in.stderr))
	}
}

type pathKnown struct{ id string }

func (in *Interp) runMain() (code int) {
	f := in.prog.fn("github.com/lyraproj/puppet-parser/parse", "main")
	// initialise the package before the run
	in.needInit(f.Pkg)
	depth, stack, sp, fr := in.depth, in.stack, in.sp, in.curFr
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			return
		case pathExit:
			code = x.code
		case targetPanic:
			in.emitFile(2, S("panic\n"))
			code = 2
		default:
			panic(r)
		}
		in.depth, in.stack, in.sp, in.curFr = depth, stack, sp, fr
	}()
	in.callFn(in.fn(f), nil, nil, in.curFr)
	return 0
}

func (in *Interp) newInput(w uint8) *Expr {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.initing {
		panic("input during initialisation")
	}
	return in.pc.newVar(w, "")
}

func (in *Interp) byteOf(al string) sb {
	e := in.newInput(8)
	tab := make([]uint64, 256)
	for i := 0; i < len(al); i++ {
		tab[al[i]] = 1
	}
	in.pc.assume(in.ctx.Table(tab, 0, e))
	if len(al) == 1 {
		return sb{c: al[0]}
	}
	return sb{e: e}
}

func (in *Interp) msgText(v V) string {
	s, ok := concreteStr(v)
	if ok {
		return s
	}
	var sbd strings.Builder
	for _, b := range in.sbs(v) {
		if b.e != nil {
			sbd.WriteByte('?')
		} else {
			sbd.WriteByte(b.c)
		}
	}
	return sbd.String()
}

func (in *Interp) assert(c *Expr, msg V) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if c.op == OConst {
		if c.k != 0 {
			in.eng.stats.assertsConst.Add(1)
			return
		}
		in.eng.violation(in, in.msgText(msg), nil, "assert")
		panic(pathEnd{"violation"})
	}
	if len(in.trail) < len(in.prefix) {
		in.pc.assume(c)
		return
	}
	neg := in.ctx.Not(c)
	switch in.pc.feasible(neg) {
	case Unsat:
		in.eng.stats.assertsProved.Add(1)
		return
	case Unknown:
		in.eng.stats.assertsUnknown.Add(1)
	default:
		in.eng.violation(in, in.msgText(msg), neg, "assert")
	}
	if in.pc.feasible(c) == Unsat {
		panic(pathEnd{"violation"})
	}
	in.pc.assume(c)
}

func jsonString(s string, escape bool) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(escape)
	if err := e.Encode(s); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func jsonFloat(f float64) (string, bool) {
	b, err := json.Marshal(f)
	if err != nil {
		return "", false
	}
	return string(b), true
}

