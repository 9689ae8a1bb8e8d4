package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

// ---- fmt

// sprintf models fmt.Sprintf for a concrete format string.
func (in *Interp) sprintf(format V, args Slc) V {
	f, ok := concreteStr(format)
	if !ok {
		in.unsupported("symbolic format string")
	}
	var out []sb
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, sb{c: s[i]})
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, sb{c: f[i]})
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		if verb >= 0x80 || verb == '*' || verb == '[' {
			in.unsupported("format directive " + spec)
		}
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = append(out, in.fmtArg(spec, verb, args[ai])...)
		ai++
	}
	if ai < len(args) {
		lit("%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				lit(", ")
			}
			lit(dynTypeName(args[k]))
			lit("=")
			out = append(out, in.fmtArg("%v", 'v', args[k])...)
		}
		lit(")")
	}
	return mkStr(out)
}

func dynTypeName(v V) string {
	i, ok := v.r.(*Iface)
	if !ok {
		return "<nil>"
	}
	return types.TypeString(i.t.t, func(p *types.Package) string { return p.Name() })
}

func cs(s string) []sb {
	out := make([]sb, len(s))
	for i := range out {
		out[i].c = s[i]
	}
	return out
}

// fmtArg formats one interface value with one directive.
func (in *Interp) fmtArg(spec string, verb byte, v V) []sb {
	i, ok := v.r.(*Iface)
	if !ok {
		return cs(fmt.Sprintf(spec, nil))
	}
	if verb == 'T' {
		return cs(dynTypeName(v))
	}
	if verb == 'p' {
		in.unsupported("%p")
	}
	if strings.IndexByte("vsxXq", verb) >= 0 {
		// Error() and String() methods
		for _, m := range []string{"Error", "String"} {
			if f := in.methodByName(i.t, m); f != nil {
				sig := f.fn.Signature
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
					if b, ok := sig.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
						if i.t.k == kPtr && i.v.r == nil {
							return cs("<nil>")
						}
						s := in.callFn(f, []V{i.v}, nil, in.curFr)
						return in.fmtStr(spec, verb, s)
					}
				}
			}
		}
	}
	return in.fmtVal(spec, verb, i.t, i.v)
}

func (in *Interp) fmtStr(spec string, verb byte, s V) []sb {
	if c, ok := concreteStr(s); ok {
		return cs(fmt.Sprintf(spec, c))
	}
	if spec == "%s" || spec == "%v" {
		return in.sbs(s)
	}
	if spec == "%q" {
		in.unsupported("%q of a symbolic string")
	}
	in.unsupported("format " + spec + " of a symbolic string")
	return nil
}

func (in *Interp) fmtVal(spec string, verb byte, t *TI, v V) []sb {
	switch t.k {
	case kString:
		return in.fmtStr(spec, verb, v)
	case kBool:
		if isSym(v) {
			v = mkBool(in.branch(v.r.(*Expr)))
		}
		return cs(fmt.Sprintf(spec, v.n != 0))
	case kInt, kUint:
		if e, ok := v.r.(*Expr); ok {
			if verb == 'c' {
				return in.encodeRune(v)
			}
			if (spec == "%d" || spec == "%v") && in.wide(e) {
				return in.sbs(in.formatInt(v, t, 10))
			}
			v = in.concretize(v, t)
		}
		if t.signed {
			switch t.w {
			case 32:
				return cs(fmt.Sprintf(spec, int32(v.n)))
			}
			return cs(fmt.Sprintf(spec, int64(v.n)))
		}
		switch t.w {
		case 8:
			return cs(fmt.Sprintf(spec, uint8(v.n)))
		}
		return cs(fmt.Sprintf(spec, v.n))
	case kFloat:
		f := in.concFloat(v, "formatting")
		if t.w == 32 {
			return cs(fmt.Sprintf(spec, float32(f)))
		}
		return cs(fmt.Sprintf(spec, f))
	case kSlice:
		if t.elem.w == 8 && t.elem.k == kUint && (verb == 's' || verb == 'x' || verb == 'q') {
			return in.fmtStr(spec, verb, in.slcToStr(v))
		}
		if spec != "%v" && spec != "%s" {
			break
		}
		out := cs("[")
		s, _ := v.r.(Slc)
		for k, x := range s {
			if k > 0 {
				out = append(out, sb{c: ' '})
			}
			out = append(out, in.fmtElem(spec, verb, t.elem, x)...)
		}
		return append(out, sb{c: ']'})
	case kStruct:
		if spec != "%v" {
			break
		}
		out := cs("{")
		for k, x := range v.r.(*Agg).f {
			if k > 0 {
				out = append(out, sb{c: ' '})
			}
			out = append(out, in.fmtElem(spec, verb, t.fields[k], x)...)
		}
		return append(out, sb{c: '}'})
	case kPtr:
		if v.r == nil {
			return cs("<nil>")
		}
		if p, ok := v.r.(*V); ok && spec == "%v" {
			if e := t.pointee(in); e != nil && (e.k == kStruct || e.k == kArray || e.k == kSlice) {
				return append(cs("&"), in.fmtVal(spec, verb, e, *p)...)
			}
		}
	case kMap:
		if m, ok := v.r.(*MapObj); (!ok || m.n == 0) && spec == "%v" {
			return cs("map[]")
		}
	}
	in.unsupported("formatting " + spec + " of " + t.name)
	return nil
}

func (in *Interp) fmtElem(spec string, verb byte, t *TI, v V) []sb {
	if t.k == kIface {
		if v.r == nil {
			return cs("<nil>")
		}
		return in.fmtArg(spec, verb, v)
	}
	if t.k == kPtr && v.r != nil {
		if in.methodByName(t, "Error") == nil && in.methodByName(t, "String") == nil {
			in.unsupported("pointer formatting")
		}
	}
	return in.fmtArg(spec, verb, V{r: &Iface{t, v}})
}

func (in *Interp) wide(e *Expr) bool {
	if i, ok := single8(e); ok {
		return in.pc.vars[i].dom.count() > 40
	}
	return e.hi-e.lo > 40
}

// formatInt models strconv.FormatInt for symbolic values in base 10.
func (in *Interp) formatInt(v V, t *TI, base int) V {
	e, ok := v.r.(*Expr)
	if !ok {
		panic("formatInt")
	}
	if base != 10 {
		in.unsupported("FormatInt of a symbolic value in another base")
	}
	c := in.ctx
	if e.w < 64 {
		if t.signed {
			e = c.SExt(e, 64)
		} else {
			e = c.ZExt(e, 64)
		}
	}
	var out []sb
	if t.signed && in.branch(c.Cmp(OSlt, e, c.Const(0, 64))) {
		out = append(out, sb{c: '-'})
		e = c.Neg(e)
	}
	n := 1
	for p := uint64(10); n < 20; n++ {
		if in.branch(c.Cmp(OUlt, e, c.Const(p, 64))) {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		p *= 10
	}
	div := uint64(1)
	for k := 1; k < n; k++ {
		div *= 10
	}
	for ; div > 0; div /= 10 {
		d := c.Bin(OURem, c.Bin(OUDiv, e, c.Const(div, 64)), c.Const(10, 64))
		x := c.Bin(OAdd, c.Trunc(d, 8), c.Const('0', 8))
		if x.op == OConst {
			out = append(out, sb{c: byte(x.k)})
		} else {
			out = append(out, sb{e: x})
		}
	}
	return mkStr(out)
}

// sprint models fmt.Sprint (ln=false) and fmt.Sprintln (ln=true).
func (in *Interp) sprint(args Slc, ln bool) V {
	var out []sb
	prevStr := true
	for i, a := range args {
		isStr := false
		if f, ok := a.r.(*Iface); ok && f.t.k == kString {
			isStr = true
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, sb{c: ' '})
		}
		out = append(out, in.fmtArg("%v", 'v', a)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, sb{c: '\n'})
	}
	return mkStr(out)
}

// write sends a string to an io.Writer value.
func (in *Interp) write(w V, s V) V {
	i, ok := w.r.(*Iface)
	if !ok {
		in.nilDeref()
	}
	if n, ok := i.v.r.(*Native); ok && n.kind == "file" {
		in.emitFile(n.x.(int), s)
		return V{r: Tup{V{n: uint64(strLen(s))}, V{}}}
	}
	f := in.methodByName(i.t, "Write")
	if f == nil {
		in.unsupported("writer " + i.t.name)
	}
	return in.callFn(f, []V{i.v, in.strToSlc(s)}, nil, in.curFr)
}

func (in *Interp) emitFile(fd int, s V) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if fd == 1 {
		in.stdout = append(in.stdout, in.sbs(s)...)
	} else {
		in.stderr = append(in.stderr, in.sbs(s)...)
	}
}

// ---- regular expressions

type Regex struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (in *Interp) regex(pat string) (*Regex, error) {
	if r := in.rxcache[pat]; r != nil {
		return r, nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	r := &Regex{re, prog}
	in.rxcache[pat] = r
	return r, nil
}

// rxMatch computes the formula "pattern matches somewhere in s".
func (in *Interp) rxMatch(r *Regex, s V) V {
	if c, ok := concreteStr(s); ok {
		return mkBool(r.re.MatchString(c))
	}
	c := in.ctx
	var runes []*Expr
	for i := 0; i < strLen(s); {
		v, n := in.decodeRune(s, i)
		runes = append(runes, in.expr(v, tiRune))
		i += n
	}
	n := len(runes)
	acc := c.tFalse
	cur := map[uint32]*Expr{}
	word := func(i int) *Expr {
		if i < 0 || i >= n {
			return c.tFalse
		}
		return in.rxRanges(runes[i], []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'}, false)
	}
	var add func(m map[uint32]*Expr, pc uint32, g *Expr, pos int, path map[uint32]bool)
	add = func(m map[uint32]*Expr, pc uint32, g *Expr, pos int, path map[uint32]bool) {
		if g == c.tFalse || path[pc] {
			return
		}
		i := &r.prog.Inst[pc]
		switch i.Op {
		case syntax.InstFail:
			return
		case syntax.InstMatch:
			acc = c.Or(acc, g)
			return
		case syntax.InstAlt, syntax.InstAltMatch:
			path[pc] = true
			add(m, i.Out, g, pos, path)
			add(m, i.Arg, g, pos, path)
			delete(path, pc)
		case syntax.InstCapture, syntax.InstNop:
			path[pc] = true
			add(m, i.Out, g, pos, path)
			delete(path, pc)
		case syntax.InstEmptyWidth:
			cond := c.tTrue
			f := syntax.EmptyOp(i.Arg)
			if f&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if f&syntax.EmptyEndText != 0 && pos != n {
				return
			}
			if f&syntax.EmptyBeginLine != 0 && pos != 0 {
				cond = c.And(cond, c.Eq(runes[pos-1], c.Const('\n', 32)))
			}
			if f&syntax.EmptyEndLine != 0 && pos != n {
				cond = c.And(cond, c.Eq(runes[pos], c.Const('\n', 32)))
			}
			if f&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				a, b := word(pos-1), word(pos)
				x := c.Not(c.Eq(a, b))
				if f&syntax.EmptyNoWordBoundary != 0 {
					x = c.Not(x)
				}
				cond = c.And(cond, x)
			}
			path[pc] = true
			add(m, i.Out, c.And(g, cond), pos, path)
			delete(path, pc)
		default:
			if o, ok := m[pc]; ok {
				m[pc] = c.Or(o, g)
			} else {
				m[pc] = g
			}
		}
	}
	add(cur, uint32(r.prog.Start), c.tTrue, 0, map[uint32]bool{})
	for pos := 0; pos < n && acc != c.tTrue; pos++ {
		nxt := map[uint32]*Expr{}
		for pc := uint32(0); pc < uint32(len(r.prog.Inst)); pc++ {
			g, ok := cur[pc]
			if !ok {
				continue
			}
			i := &r.prog.Inst[pc]
			var cond *Expr
			switch i.Op {
			case syntax.InstRuneAny:
				cond = c.tTrue
			case syntax.InstRuneAnyNotNL:
				cond = c.Not(c.Eq(runes[pos], c.Const('\n', 32)))
			case syntax.InstRune, syntax.InstRune1:
				rs := i.Rune
				if len(rs) == 1 {
					rs = []rune{rs[0], rs[0]}
				}
				cond = in.rxRanges(runes[pos], rs, syntax.Flags(i.Arg)&syntax.FoldCase != 0)
			}
			add(nxt, i.Out, c.And(g, cond), pos+1, map[uint32]bool{})
		}
		// unanchored search may start at any later position
		add(nxt, uint32(r.prog.Start), c.tTrue, pos+1, map[uint32]bool{})
		cur = nxt
	}
	return in.mkB(acc)
}

func (in *Interp) rxRanges(r *Expr, rs []rune, fold bool) *Expr {
	c := in.ctx
	if fold {
		if len(rs) > 8 {
			in.unsupported("case folding regular expression")
		}
		var out []rune
		for i := 0; i+1 < len(rs); i += 2 {
			if rs[i] != rs[i+1] {
				in.unsupported("case folding regular expression")
			}
			out = append(out, rs[i], rs[i])
			for f := unicode.SimpleFold(rs[i]); f != rs[i]; f = unicode.SimpleFold(f) {
				out = append(out, f, f)
			}
		}
		rs = out
	}
	x := c.tFalse
	for i := 0; i+1 < len(rs); i += 2 {
		x = c.Or(x, c.And(c.Cmp(OUle, c.Const(uint64(rs[i]), 32), r), c.Cmp(OUle, r, c.Const(uint64(rs[i+1]), 32))))
	}
	return x
}

// ---- unicode classes

func (in *Interp) unicodeIn(v V, f func(rune) bool, rt *unicode.RangeTable) V {
	e, ok := v.r.(*Expr)
	if !ok {
		return mkBool(f(rune(int32(v.n))))
	}
	c := in.ctx
	if _, ok := single8(e); ok {
		vt := c.valTable(e)
		tab := make([]uint64, 256)
		for i, x := range vt {
			if f(rune(int32(x))) {
				tab[i] = 1
			}
		}
		return in.mkB(c.Table(tab, 0, c.Var(int(e.v>>1), 8)))
	}
	if rt == nil {
		in.unsupported("unicode class of a wide symbolic rune")
	}
	x := c.tFalse
	add := func(lo, hi, stride uint64) {
		if hi < e.lo || lo > e.hi {
			return
		}
		if stride == 1 {
			x = c.Or(x, c.And(c.Cmp(OUle, c.Const(lo, 32), e), c.Cmp(OUle, e, c.Const(hi, 32))))
			return
		}
		if (hi-lo)/stride < 6 {
			for k := lo; k <= hi; k += stride {
				x = c.Or(x, c.Eq(e, c.Const(k, 32)))
			}
			return
		}
		rem := c.Eq(c.Bin(OURem, c.Bin(OSub, e, c.Const(lo, 32)), c.Const(stride, 32)), c.Const(0, 32))
		x = c.Or(x, c.And(c.And(c.Cmp(OUle, c.Const(lo, 32), e), c.Cmp(OUle, e, c.Const(hi, 32))), rem))
	}
	for _, r := range rt.R16 {
		add(uint64(r.Lo), uint64(r.Hi), uint64(r.Stride))
	}
	for _, r := range rt.R32 {
		add(uint64(r.Lo), uint64(r.Hi), uint64(r.Stride))
	}
	return in.mkB(x)
}

func (in *Interp) unicodeMap(v V, f func(rune) rune) V {
	e, ok := v.r.(*Expr)
	if !ok {
		return V{n: uint64(int64(f(rune(int32(v.n)))))}
	}
	c := in.ctx
	if _, ok := single8(e); ok {
		vt := c.valTable(e)
		tab := make([]uint64, 256)
		for i, x := range vt {
			tab[i] = uint64(uint32(f(rune(int32(x)))))
		}
		return in.mk(c.Table(tab, 32, c.Var(int(e.v>>1), 8)), tiRune)
	}
	if e.hi <= 0x7ff {
		tab := make([]uint64, 0x800)
		for i := range tab {
			tab[i] = uint64(uint32(f(rune(i))))
		}
		return in.mk(c.Table(tab, 32, e), tiRune)
	}
	in.unsupported("unicode mapping of a wide symbolic rune")
	return v
}
