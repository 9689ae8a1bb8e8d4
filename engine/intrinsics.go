package main

import (
	"fmt"
	"math"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

var intrinsics map[string]intrinsic
var pureIntrinsics map[string]bool

func argSlc(v V) Slc {
	s, _ := v.r.(Slc)
	return s
}

func tup(vs ...V) V { return V{r: Tup(append([]V(nil), vs...))} }

func (in *Interp) mustStr(v V, what string) string {
	s, ok := concreteStr(v)
	if !ok {
		// fork over the values of a few symbolic bytes
		b := in.sbs(v)
		total := 1
		for _, x := range b {
			if x.e != nil {
				n := 256
				if i, ok := single8(x.e); ok {
					n = in.pc.vars[i].dom.count()
				}
				total *= n
				if total > 5000 {
					in.unsupported("symbolic string for " + what)
				}
			}
		}
		out := make([]byte, len(b))
		for i, x := range b {
			out[i] = byte(in.concretize(in.sbV(x), tiByte).n)
		}
		return string(out)
	}
	return s
}

func (in *Interp) newError(msg V) V {
	f := in.prog.fn("errors", "New")
	return in.callFn(in.fn(f), []V{msg}, nil, in.curFr)
}

func rx(in *Interp, v V) *Regex {
	n, ok := v.r.(*Native)
	if !ok {
		in.nilDeref()
	}
	return n.x.(*Regex)
}

func boolFn(f func(in *Interp, args []V) bool) intrinsic {
	return func(in *Interp, args []V) V { return mkBool(f(in, args)) }
}

func strSlcV(ss []string) V {
	if ss == nil {
		return V{}
	}
	s := make(Slc, len(ss))
	for i, x := range ss {
		s[i] = S(x)
	}
	return V{r: s}
}

func (in *Interp) indexByte(b []sb, c V, last bool) V {
	var conds []*Expr
	var res []int
	none := in.ctx.tTrue
	ce := in.expr(c, tiByte)
	for k := range b {
		i := k
		if last {
			i = len(b) - 1 - k
		}
		e := in.ctx.Eq(in.sbE(b[i]), ce)
		if e == in.ctx.tFalse {
			continue
		}
		conds = append(conds, in.ctx.And(none, e))
		res = append(res, i)
		none = in.ctx.And(none, in.ctx.Not(e))
		if none == in.ctx.tFalse {
			break
		}
	}
	conds = append(conds, none)
	res = append(res, -1)
	return V{n: uint64(int64(res[in.choose(conds)]))}
}

func (in *Interp) indexStr(s, sub V) V {
	a, b := in.sbs(s), in.sbs(sub)
	if cs, ok := concreteStr(s); ok {
		if cb, ok := concreteStr(sub); ok {
			return V{n: uint64(int64(strings.Index(cs, cb)))}
		}
	}
	var conds []*Expr
	var res []int
	none := in.ctx.tTrue
	for i := 0; i+len(b) <= len(a); i++ {
		e := in.ctx.tTrue
		for j := range b {
			e = in.ctx.And(e, in.ctx.Eq(in.sbE(a[i+j]), in.sbE(b[j])))
		}
		if e == in.ctx.tFalse {
			continue
		}
		conds = append(conds, in.ctx.And(none, e))
		res = append(res, i)
		none = in.ctx.And(none, in.ctx.Not(e))
		if none == in.ctx.tFalse {
			break
		}
	}
	conds = append(conds, none)
	res = append(res, -1)
	return V{n: uint64(int64(res[in.choose(conds)]))}
}

func (in *Interp) slcSb(v V) []sb {
	s := argSlc(v)
	out := make([]sb, len(s))
	for i, x := range s {
		out[i] = vSb(x)
	}
	return out
}

func (in *Interp) cellOf(v V) *V {
	p, ok := v.r.(*V)
	if !ok {
		in.nilDeref()
	}
	return p
}

func (in *Interp) setCell(p *V, v V) {
	in.touch(p)
	*p = v
}

// mapASCII maps a string bytewise when it is ASCII; other text is mapped rune
// by rune.
func (in *Interp) mapStr(v V, f func(rune) rune, g func(string) string) V {
	if s, ok := concreteStr(v); ok {
		return S(g(s))
	}
	var out []sb
	for i := 0; i < strLen(v); {
		r, n := in.decodeRune(v, i)
		out = append(out, in.encodeRune(in.unicodeMap(r, f))...)
		i += n
	}
	return mkStr(out)
}

func (in *Interp) parseFloat(args []V) V {
	s := args[0]
	if c, ok := concreteStr(s); ok {
		f, err := strconv.ParseFloat(c, int(args[1].n))
		if err != nil {
			return tup(mkFloat(f), in.newError(S(err.Error())))
		}
		return tup(mkFloat(f), V{})
	}
	// syntax check on the decimal grammar
	r, err := in.regex(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	if err != nil {
		panic(err)
	}
	if !in.branch(in.bexpr(in.rxMatch(r, s))) {
		// hexadecimal floats, infinities, underscores: decide concretely
		c := in.mustStr(s, "ParseFloat")
		return in.parseFloat([]V{S(c), args[1]})
	}
	// a range error needs at least three exponent digits (mantissas are short)
	b := in.sbs(s)
	exp := -1
	for i, x := range b {
		if in.branch(in.ctx.Or(in.ctx.Eq(in.sbE(x), in.ctx.small['e']), in.ctx.Eq(in.sbE(x), in.ctx.small['E']))) {
			exp = i
			break
		}
	}
	if exp >= 0 {
		digits := 0
		for _, x := range b[exp+1:] {
			if in.branch(in.ctx.Cmp(OUle, in.ctx.small['0'], in.sbE(x))) {
				digits++
			}
		}
		if digits >= 3 {
			c := in.mustStr(s, "ParseFloat with a long exponent")
			return in.parseFloat([]V{S(c), args[1]})
		}
	}
	var es []*Expr
	for _, x := range b {
		es = append(es, in.sbE(x))
	}
	e := in.ctx.UF(fmt.Sprintf("ParseFloat%d", len(b)), 64, es)
	return tup(V{r: e}, V{})
}

// concFloat returns the value of a float. The digits of a symbolic one are
// forked over.
func (in *Interp) concFloat(v V, what string) float64 {
	if v.r == nil {
		return math.Float64frombits(v.n)
	}
	e, ok := v.r.(*Expr)
	if !ok || e.op != OUF || !strings.HasPrefix(ufName(e), "ParseFloat") {
		in.unsupported(what + " of a symbolic float")
	}
	b := make([]sb, len(e.args))
	for i, a := range e.args {
		b[i] = sb{e: a}
		if a.op == OConst {
			b[i] = sb{c: byte(a.k)}
		}
	}
	f, err := strconv.ParseFloat(in.mustStr(mkStr(b), what), 64)
	if err != nil {
		in.unsupported(what + " of a symbolic float")
	}
	in.pc.assume(in.ctx.Eq(e, in.ctx.Const(math.Float64bits(f), 64)))
	return f
}

type jsonEnc struct {
	w      V
	escape bool
}

// jsonEncode models encoding/json for the data produced by this repository.
func (in *Interp) jsonEncode(v V, escape bool) ([]sb, bool) {
	i, ok := v.r.(*Iface)
	if !ok {
		return cs("null"), true
	}
	return in.jsonVal(i.t, i.v, escape)
}

func (in *Interp) jsonVal(t *TI, v V, escape bool) ([]sb, bool) {
	switch t.k {
	case kIface:
		return in.jsonEncode(v, escape)
	case kBool:
		if in.branch(in.bexpr(v)) {
			return cs("true"), true
		}
		return cs("false"), true
	case kInt, kUint:
		if isSym(v) {
			return in.sbs(in.formatInt(v, t, 10)), true
		}
		if t.signed {
			return cs(strconv.FormatInt(int64(v.n), 10)), true
		}
		return cs(strconv.FormatUint(v.n, 10)), true
	case kFloat:
		f := in.concFloat(v, "json")
		b, ok := jsonFloat(f)
		return cs(b), ok
	case kString:
		return in.jsonStr(v, escape), true
	case kSlice:
		s, ok := v.r.(Slc)
		if !ok {
			return cs("null"), true
		}
		out := cs("[")
		for k, x := range s {
			if k > 0 {
				out = append(out, sb{c: ','})
			}
			b, ok := in.jsonVal(t.elem, x, escape)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return append(out, sb{c: ']'}), true
	case kMap:
		m, ok := v.r.(*MapObj)
		if !ok {
			return cs("null"), true
		}
		if t.key.k != kString {
			return nil, false
		}
		var keys []string
		vals := map[string]V{}
		for _, e := range m.ent {
			if e.del {
				continue
			}
			k := in.mustStr(e.k, "json key")
			keys = append(keys, k)
			vals[k] = e.v
		}
		sort.Strings(keys)
		out := cs("{")
		for k, x := range keys {
			if k > 0 {
				out = append(out, sb{c: ','})
			}
			out = append(out, in.jsonStr(S(x), escape)...)
			out = append(out, sb{c: ':'})
			b, ok := in.jsonVal(t.elem, vals[x], escape)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return append(out, sb{c: '}'}), true
	}
	in.unsupported("json of " + t.name)
	return nil, false
}

func (in *Interp) jsonStr(v V, escape bool) []sb {
	if s, ok := concreteStr(v); ok {
		return cs(jsonString(s, escape))
	}
	out := cs(`"`)
	for i := 0; i < strLen(v); {
		r, n := in.decodeRune(v, i)
		if n == 1 {
			e := in.expr(r, tiRune)
			if e.op != OConst {
				// printable ASCII without escapes stays symbolic
				bad := `"\`
				if escape {
					bad += "<>&"
				}
				plain := in.ctx.And(in.ctx.Cmp(OUle, in.ctx.Const(0x20, 32), e), in.ctx.Cmp(OUlt, e, in.ctx.Const(0x80, 32)))
				for _, b := range bad {
					plain = in.ctx.And(plain, in.ctx.Not(in.ctx.Eq(e, in.ctx.Const(uint64(b), 32))))
				}
				if in.branch(plain) {
					out = append(out, sb{e: in.ctx.Trunc(e, 8)})
				} else {
					r = in.concretize(r, tiRune)
					j := jsonString(string(rune(int32(r.n))), escape)
					out = append(out, cs(j[1:len(j)-1])...)
				}
				i += n
				continue
			}
			j := jsonString(strSliceConc(in, v, i, i+1), escape)
			out = append(out, cs(j[1:len(j)-1])...)
			i += n
			continue
		}
		e := in.expr(r, tiRune)
		if e.op != OConst {
			if in.branch(in.ctx.Or(in.ctx.Eq(e, in.ctx.Const(0x2028, 32)), in.ctx.Eq(e, in.ctx.Const(0x2029, 32)))) {
				r = in.concretize(V{r: e}, tiRune)
				j := jsonString(string(rune(int32(r.n))), escape)
				out = append(out, cs(j[1:len(j)-1])...)
				i += n
				continue
			}
			out = append(out, in.sbs(strSlice(v, i, i+n))...)
		} else {
			j := jsonString(string(rune(int32(e.k))), escape)
			out = append(out, cs(j[1:len(j)-1])...)
		}
		i += n
	}
	return append(out, sb{c: '"'})
}

func strSliceConc(in *Interp, v V, lo, hi int) string {
	s := strSlice(v, lo, hi)
	if c, ok := concreteStr(s); ok {
		return c
	}
	// an invalid byte: its value is irrelevant to the escaped form
	return "\xff"
}

func init() {
	m := map[string]intrinsic{}
	intrinsics = m
	pureIntrinsics = map[string]bool{}
	pure := func(name string, f intrinsic) { m[name] = f; pureIntrinsics[name] = true }

	// fmt
	m["fmt.Sprintf"] = func(in *Interp, a []V) V { return in.sprintf(a[0], argSlc(a[1])) }
	m["fmt.Sprint"] = func(in *Interp, a []V) V { return in.sprint(argSlc(a[0]), false) }
	m["fmt.Sprintln"] = func(in *Interp, a []V) V { return in.sprint(argSlc(a[0]), true) }
	m["fmt.Errorf"] = func(in *Interp, a []V) V {
		return in.newError(in.sprintf(S(strings.Replace(in.mustStr(a[0], "format"), "%w", "%v", -1)), argSlc(a[1])))
	}
	m["fmt.Fprintf"] = func(in *Interp, a []V) V { return in.write(a[0], in.sprintf(a[1], argSlc(a[2]))) }
	m["fmt.Fprint"] = func(in *Interp, a []V) V { return in.write(a[0], in.sprint(argSlc(a[1]), false)) }
	m["fmt.Fprintln"] = func(in *Interp, a []V) V { return in.write(a[0], in.sprint(argSlc(a[1]), true)) }
	prt := func(s func(in *Interp, a []V) V) intrinsic {
		return func(in *Interp, a []V) V {
			v := s(in, a)
			in.emitFile(1, v)
			return tup(V{n: uint64(strLen(v))}, V{})
		}
	}
	m["fmt.Printf"] = prt(func(in *Interp, a []V) V { return in.sprintf(a[0], argSlc(a[1])) })
	m["fmt.Print"] = prt(func(in *Interp, a []V) V { return in.sprint(argSlc(a[0]), false) })
	m["fmt.Println"] = prt(func(in *Interp, a []V) V { return in.sprint(argSlc(a[0]), true) })
	m["fmt.Appendf"] = func(in *Interp, a []V) V {
		s := in.sbs(in.sprintf(a[1], argSlc(a[2])))
		out := append(Slc{}, argSlc(a[0])...)
		for _, b := range s {
			out = append(out, in.sbV(b))
		}
		return V{r: out}
	}
	m["(*os.File).Write"] = func(in *Interp, a []V) V {
		n, ok := a[0].r.(*Native)
		if !ok {
			in.unsupported("file write")
		}
		s := in.slcToStr(a[1])
		in.emitFile(n.x.(int), s)
		return tup(V{n: uint64(strLen(s))}, V{})
	}
	m["(*os.File).WriteString"] = func(in *Interp, a []V) V {
		n, ok := a[0].r.(*Native)
		if !ok {
			in.unsupported("file write")
		}
		in.emitFile(n.x.(int), a[1])
		return tup(V{n: uint64(strLen(a[1]))}, V{})
	}

	// unicode
	pure("unicode.IsLetter", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsLetter, unicode.Letter) })
	pure("unicode.IsUpper", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsUpper, unicode.Upper) })
	pure("unicode.IsLower", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsLower, unicode.Lower) })
	pure("unicode.IsDigit", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsDigit, unicode.Digit) })
	pure("unicode.IsNumber", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsNumber, unicode.Number) })
	pure("unicode.IsSpace", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsSpace, unicode.White_Space) })
	pure("unicode.IsControl", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsControl, nil) })
	pure("unicode.IsPrint", func(in *Interp, a []V) V { return in.unicodeIn(a[0], unicode.IsPrint, nil) })
	pure("unicode.ToLower", func(in *Interp, a []V) V { return in.unicodeMap(a[0], unicode.ToLower) })
	pure("unicode.ToUpper", func(in *Interp, a []V) V { return in.unicodeMap(a[0], unicode.ToUpper) })

	// utf8
	m["unicode/utf8.DecodeRuneInString"] = func(in *Interp, a []V) V {
		r, n := in.decodeRune(a[0], 0)
		return tup(r, V{n: uint64(n)})
	}
	m["unicode/utf8.DecodeRune"] = func(in *Interp, a []V) V {
		r, n := in.decodeBytes(in.slcSb(a[0]))
		return tup(r, V{n: uint64(n)})
	}
	m["unicode/utf8.RuneCountInString"] = func(in *Interp, a []V) V {
		c := 0
		for i := 0; i < strLen(a[0]); c++ {
			_, n := in.decodeRune(a[0], i)
			i += n
		}
		return V{n: uint64(c)}
	}
	m["unicode/utf8.RuneCount"] = func(in *Interp, a []V) V {
		s := in.slcToStr(a[0])
		c := 0
		for i := 0; i < strLen(s); c++ {
			_, n := in.decodeRune(s, i)
			i += n
		}
		return V{n: uint64(c)}
	}
	valid := func(in *Interp, s V) V {
		for i := 0; i < strLen(s); {
			r, n := in.decodeRune(s, i)
			if n == 1 && r.r == nil && r.n == utf8.RuneError {
				return mkBool(false)
			}
			i += n
		}
		return mkBool(true)
	}
	m["unicode/utf8.ValidString"] = func(in *Interp, a []V) V { return valid(in, a[0]) }
	m["unicode/utf8.Valid"] = func(in *Interp, a []V) V { return valid(in, in.slcToStr(a[0])) }
	m["unicode/utf8.RuneLen"] = func(in *Interp, a []V) V {
		if a[0].r == nil {
			return V{n: uint64(int64(utf8.RuneLen(rune(int32(a[0].n)))))}
		}
		return V{n: uint64(len(in.encodeRune(a[0])))}
	}
	m["unicode/utf8.EncodeRune"] = func(in *Interp, a []V) V {
		d := argSlc(a[0])
		b := in.encodeRune(a[1])
		if len(d) < len(b) {
			in.rtPanic("index out of range")
		}
		for i, x := range b {
			in.setCell(&d[i], in.sbV(x))
		}
		return V{n: uint64(len(b))}
	}
	m["unicode/utf8.AppendRune"] = func(in *Interp, a []V) V {
		d := argSlc(a[0])
		b := in.encodeRune(a[1])
		if cap(d)-len(d) >= len(b) {
			n := len(d)
			d = d[:n+len(b)]
			for i, x := range b {
				in.setCell(&d[n+i], in.sbV(x))
			}
			return V{r: d}
		}
		nd := make(Slc, len(d)+len(b), growCap(cap(d), len(d)+len(b)))
		copy(nd, d)
		for i, x := range b {
			nd[len(d)+i] = in.sbV(x)
		}
		return V{r: nd}
	}

	// strings, bytes
	m["strings.Join"] = func(in *Interp, a []V) V {
		r := S("")
		for i, x := range argSlc(a[0]) {
			if i > 0 {
				r = in.strCat(r, a[1])
			}
			r = in.strCat(r, x)
		}
		return r
	}
	m["strings.Index"] = func(in *Interp, a []V) V { return in.indexStr(a[0], a[1]) }
	m["strings.IndexByte"] = func(in *Interp, a []V) V { return in.indexByte(in.sbs(a[0]), a[1], false) }
	m["strings.LastIndexByte"] = func(in *Interp, a []V) V { return in.indexByte(in.sbs(a[0]), a[1], true) }
	m["internal/bytealg.IndexByteString"] = m["strings.IndexByte"]
	m["internal/stringslite.IndexByte"] = m["strings.IndexByte"]
	m["internal/stringslite.Index"] = m["strings.Index"]
	m["internal/bytealg.LastIndexByteString"] = m["strings.LastIndexByte"]
	m["internal/bytealg.IndexString"] = m["strings.Index"]
	m["internal/bytealg.IndexByte"] = func(in *Interp, a []V) V { return in.indexByte(in.slcSb(a[0]), a[1], false) }
	m["bytes.IndexByte"] = m["internal/bytealg.IndexByte"]
	m["internal/bytealg.LastIndexByte"] = func(in *Interp, a []V) V { return in.indexByte(in.slcSb(a[0]), a[1], true) }
	m["internal/bytealg.Index"] = func(in *Interp, a []V) V { return in.indexStr(in.slcToStr(a[0]), in.slcToStr(a[1])) }
	m["bytes.Index"] = m["internal/bytealg.Index"]
	count := func(in *Interp, b []sb, c V) V {
		n := 0
		ce := in.expr(c, tiByte)
		for _, x := range b {
			if in.branch(in.ctx.Eq(in.sbE(x), ce)) {
				n++
			}
		}
		return V{n: uint64(n)}
	}
	m["internal/bytealg.CountString"] = func(in *Interp, a []V) V { return count(in, in.sbs(a[0]), a[1]) }
	m["internal/bytealg.Count"] = func(in *Interp, a []V) V { return count(in, in.slcSb(a[0]), a[1]) }
	m["internal/bytealg.Equal"] = func(in *Interp, a []V) V { return in.mkB(in.strEq(in.slcToStr(a[0]), in.slcToStr(a[1]))) }
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	m["internal/bytealg.Compare"] = func(in *Interp, a []V) V {
		return V{n: uint64(int64(in.strCmp(in.slcToStr(a[0]), in.slcToStr(a[1]))))}
	}
	m["bytes.Compare"] = m["internal/bytealg.Compare"]
	m["internal/bytealg.CompareString"] = func(in *Interp, a []V) V { return V{n: uint64(int64(in.strCmp(a[0], a[1])))} }
	m["strings.Compare"] = m["internal/bytealg.CompareString"]
	m["cmp.Compare"] = nil
	delete(m, "cmp.Compare")
	m["internal/bytealg.MakeNoZero"] = func(in *Interp, a []V) V {
		s := make(Slc, in.concInt(a[0]))
		return V{r: s}
	}
	m["strings.ToLower"] = func(in *Interp, a []V) V { return in.mapStr(a[0], unicode.ToLower, strings.ToLower) }
	m["strings.ToUpper"] = func(in *Interp, a []V) V { return in.mapStr(a[0], unicode.ToUpper, strings.ToUpper) }
	ident := func(in *Interp, a []V) V { return a[0] }
	m["strings.Clone"] = ident
	m["internal/stringslite.Clone"] = ident
	m["internal/abi.NoEscape"] = ident
	m["strings.noescape"] = ident
	m["internal/abi.Escape"] = ident
	m["strings.Count"] = nil
	delete(m, "strings.Count")
	m["strings.Title"] = func(in *Interp, a []V) V { return S(strings.Title(in.mustStr(a[0], "Title"))) }
	// bytes.Buffer fast paths are interpreted from source

	// strconv
	m["strconv.FormatInt"] = func(in *Interp, a []V) V {
		base := in.concInt(a[1])
		if e, ok := a[0].r.(*Expr); ok {
			if base == 10 && in.wide(e) {
				return in.formatInt(a[0], tiInt, base)
			}
			if in.wide(e) {
				in.unsupported("FormatInt of a symbolic value")
			}
			a0 := in.concretize(a[0], tiInt)
			return S(strconv.FormatInt(int64(a0.n), base))
		}
		return S(strconv.FormatInt(int64(a[0].n), base))
	}
	m["strconv.Itoa"] = func(in *Interp, a []V) V { return m["strconv.FormatInt"](in, []V{a[0], {n: 10}}) }
	m["strconv.FormatUint"] = func(in *Interp, a []V) V {
		if a[0].r != nil {
			in.unsupported("FormatUint of a symbolic value")
		}
		return S(strconv.FormatUint(a[0].n, in.concInt(a[1])))
	}
	m["strconv.FormatFloat"] = func(in *Interp, a []V) V {
		return S(strconv.FormatFloat(in.concFloat(a[0], "FormatFloat"), byte(a[1].n), in.concInt(a[2]), in.concInt(a[3])))
	}
	m["strconv.ParseFloat"] = func(in *Interp, a []V) V { return in.parseFloat(a) }
	m["strconv.Quote"] = func(in *Interp, a []V) V { return S(strconv.Quote(in.mustStr(a[0], "Quote"))) }
	m["strconv.FormatBool"] = func(in *Interp, a []V) V {
		if in.branch(in.bexpr(a[0])) {
			return S("true")
		}
		return S("false")
	}

	// math
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Log10": math.Log10, "Log": math.Log, "Log2": math.Log2, "Abs": math.Abs, "Exp": math.Exp, "Round": math.Round} {
		f := f
		m["math."+n] = func(in *Interp, a []V) V {
			return mkFloat(f(in.concFloat(a[0], "math function")))
		}
	}
	m["math.Float64bits"] = ident
	m["math.Float64frombits"] = ident
	m["math.IsNaN"] = func(in *Interp, a []V) V {
		if a[0].r != nil {
			return mkBool(false) // parsed decimal literals are never NaN
		}
		return mkBool(math.IsNaN(math.Float64frombits(a[0].n)))
	}
	m["math.IsInf"] = func(in *Interp, a []V) V {
		if a[0].r != nil {
			return mkBool(false) // symbolic floats come from in-range decimal literals
		}
		return mkBool(math.IsInf(math.Float64frombits(a[0].n), int(int64(a[1].n))))
	}
	m["math.Pow"] = func(in *Interp, a []V) V {
		return mkFloat(math.Pow(in.concFloat(a[0], "math.Pow"), in.concFloat(a[1], "math.Pow")))
	}

	// regexp
	comp := func(in *Interp, a []V) (V, error) {
		r, err := in.regex(in.mustStr(a[0], "regexp"))
		if err != nil {
			return V{}, err
		}
		return V{r: &Native{"regexp", r}}, nil
	}
	m["regexp.MustCompile"] = func(in *Interp, a []V) V {
		v, err := comp(in, a)
		if err != nil {
			panic(targetPanic{v: V{r: &Iface{in.ti(stringType), S("regexp: Compile: " + err.Error())}}})
		}
		return v
	}
	m["regexp.Compile"] = func(in *Interp, a []V) V {
		v, err := comp(in, a)
		if err != nil {
			return tup(V{}, in.newError(S(err.Error())))
		}
		return tup(v, V{})
	}
	m["regexp.QuoteMeta"] = func(in *Interp, a []V) V { return S(regexp.QuoteMeta(in.mustStr(a[0], "QuoteMeta"))) }
	m["(*regexp.Regexp).String"] = func(in *Interp, a []V) V { return S(rx(in, a[0]).re.String()) }
	m["(*regexp.Regexp).MatchString"] = func(in *Interp, a []V) V { return in.rxMatch(rx(in, a[0]), a[1]) }
	m["(*regexp.Regexp).Match"] = func(in *Interp, a []V) V { return in.rxMatch(rx(in, a[0]), in.slcToStr(a[1])) }
	m["regexp.MatchString"] = func(in *Interp, a []V) V {
		r, err := in.regex(in.mustStr(a[0], "regexp"))
		if err != nil {
			return tup(V{}, in.newError(S(err.Error())))
		}
		return tup(in.rxMatch(r, a[1]), V{})
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = func(in *Interp, a []V) V {
		return strSlcV(rx(in, a[0]).re.FindStringSubmatch(in.mustStr(a[1], "FindStringSubmatch")))
	}
	m["(*regexp.Regexp).FindString"] = func(in *Interp, a []V) V {
		return S(rx(in, a[0]).re.FindString(in.mustStr(a[1], "FindString")))
	}
	m["(*regexp.Regexp).FindStringIndex"] = func(in *Interp, a []V) V {
		x := rx(in, a[0]).re.FindStringIndex(in.mustStr(a[1], "FindStringIndex"))
		if x == nil {
			return V{}
		}
		return V{r: Slc{{n: uint64(x[0])}, {n: uint64(x[1])}}}
	}
	m["(*regexp.Regexp).ReplaceAllString"] = func(in *Interp, a []V) V {
		return S(rx(in, a[0]).re.ReplaceAllString(in.mustStr(a[1], "ReplaceAllString"), in.mustStr(a[2], "ReplaceAllString")))
	}
	m["(*regexp.Regexp).FindAllString"] = func(in *Interp, a []V) V {
		return strSlcV(rx(in, a[0]).re.FindAllString(in.mustStr(a[1], "FindAllString"), in.concInt(a[2])))
	}
	m["(*regexp.Regexp).Split"] = func(in *Interp, a []V) V {
		return strSlcV(rx(in, a[0]).re.Split(in.mustStr(a[1], "Split"), in.concInt(a[2])))
	}

	// sync
	nop := func(in *Interp, a []V) V { return V{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		m[n] = nop
	}
	m["(*sync.Mutex).TryLock"] = func(in *Interp, a []V) V { return mkBool(true) }
	m["(*sync.Pool).Put"] = func(in *Interp, a []V) V {
		if a[1].r != nil {
			p := in.cellOf(a[0])
			in.pools[p] = append(in.pools[p], a[1])
		}
		return V{}
	}
	m["(*sync.Pool).Get"] = func(in *Interp, a []V) V {
		p := in.cellOf(a[0])
		if l := in.pools[p]; len(l) > 0 {
			in.pools[p] = l[:len(l)-1]
			return l[len(l)-1]
		}
		ag := p.r.(*Agg)
		nf := ag.f[len(ag.f)-1]
		if nf.r == nil {
			return V{}
		}
		return in.callV(nf, nil, in.curFr)
	}
	mapT := func(in *Interp, a []V) *MapObj {
		p := in.cellOf(a[0])
		if in.smaps[p] == nil {
			in.smaps[p] = newMap()
		}
		return in.smaps[p]
	}
	m["(*sync.Map).Load"] = func(in *Interp, a []V) V {
		mm := mapT(in, a)
		if i := in.mapFind(mm, a[1], in.tiAny); i >= 0 {
			return tup(mm.ent[i].v, mkBool(true))
		}
		return tup(V{}, V{})
	}
	m["(*sync.Map).Store"] = func(in *Interp, a []V) V {
		in.mapSet(mapT(in, a), a[1], a[2], in.tiAny)
		return V{}
	}
	m["(*sync.Map).LoadOrStore"] = func(in *Interp, a []V) V {
		mm := mapT(in, a)
		if i := in.mapFind(mm, a[1], in.tiAny); i >= 0 {
			return tup(mm.ent[i].v, mkBool(true))
		}
		in.mapSet(mm, a[1], a[2], in.tiAny)
		return tup(a[2], V{})
	}
	m["(*sync.Map).Delete"] = func(in *Interp, a []V) V {
		in.mapDel(mapT(in, a), a[1], in.tiAny)
		return V{}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		m["sync/atomic.Load"+ty] = func(in *Interp, a []V) V { return *in.cellOf(a[0]) }
		m["sync/atomic.Store"+ty] = func(in *Interp, a []V) V { in.setCell(in.cellOf(a[0]), a[1]); return V{} }
		m["sync/atomic.Swap"+ty] = func(in *Interp, a []V) V {
			o := *in.cellOf(a[0])
			in.setCell(in.cellOf(a[0]), a[1])
			return o
		}
		signed := ty == "Int32" || ty == "Int64"
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		t := &TI{k: kUint, w: w, signed: signed}
		m["sync/atomic.Add"+ty] = func(in *Interp, a []V) V {
			p := in.cellOf(a[0])
			if p.r != nil || a[1].r != nil {
				in.unsupported("atomic on symbolic value")
			}
			in.setCell(p, V{n: t.norm(p.n + a[1].n)})
			return *p
		}
		m["sync/atomic.CompareAndSwap"+ty] = func(in *Interp, a []V) V {
			p := in.cellOf(a[0])
			if p.n == a[1].n && p.r == a[1].r {
				in.setCell(p, a[2])
				return mkBool(true)
			}
			return mkBool(false)
		}
	}

	// runtime
	m["runtime.Caller"] = func(in *Interp, a []V) V { return tup(V{}, S("unknown"), V{n: 1}, mkBool(true)) }
	m["runtime.Callers"] = func(in *Interp, a []V) V { return V{} }
	m["runtime.GC"] = nop
	m["runtime.KeepAlive"] = nop
	m["runtime.SetFinalizer"] = nop

	// os, flag, files
	m["os.Exit"] = func(in *Interp, a []V) V { panic(pathExit{in.concInt(a[0])}) }
	readFile := func(in *Interp, a []V) V {
		name := in.mustStr(a[0], "file name")
		if v, ok := in.files[name]; ok {
			return tup(in.strToSlc(v), V{})
		}
		return tup(V{}, in.newError(S("open "+name+": no such file or directory")))
	}
	m["os.ReadFile"] = readFile
	m["io/ioutil.ReadFile"] = readFile
	m["path/filepath.Ext"] = func(in *Interp, a []V) V { return S(filepath.Ext(in.mustStr(a[0], "Ext"))) }
	m["path/filepath.Base"] = func(in *Interp, a []V) V { return S(filepath.Base(in.mustStr(a[0], "Base"))) }
	flagDef := func(kind string) intrinsic {
		return func(in *Interp, a []V) V {
			p := in.newCell()
			*p = a[1]
			in.flags[in.mustStr(a[0], "flag")] = flagDecl{kind, p}
			return V{r: p}
		}
	}
	m["flag.Bool"] = flagDef("bool")
	m["flag.String"] = flagDef("string")
	m["flag.Int"] = flagDef("int")
	flagVar := func(kind string) intrinsic {
		return func(in *Interp, a []V) V {
			p := in.cellOf(a[0])
			in.setCell(p, a[2])
			in.flags[in.mustStr(a[1], "flag")] = flagDecl{kind, p}
			return V{}
		}
	}
	m["flag.BoolVar"] = flagVar("bool")
	m["flag.StringVar"] = flagVar("string")
	m["flag.Parse"] = func(in *Interp, a []V) V {
		args := in.argv
		for len(args) > 0 && len(args[0]) > 1 && args[0][0] == '-' {
			n := strings.TrimLeft(args[0], "-")
			if n == "" {
				args = args[1:]
				break
			}
			val, has := "", false
			if i := strings.IndexByte(n, '='); i >= 0 {
				val, has, n = n[i+1:], true, n[:i]
			}
			d, ok := in.flags[n]
			if !ok {
				in.emitFile(2, S("flag provided but not defined: -"+n+"\n"))
				panic(pathExit{2})
			}
			args = args[1:]
			if d.kind == "bool" {
				b := true
				if has {
					var err error
					if b, err = strconv.ParseBool(val); err != nil {
						panic(pathExit{2})
					}
				}
				in.setCell(d.p, mkBool(b))
				continue
			}
			if !has {
				if len(args) == 0 {
					in.emitFile(2, S("flag needs an argument: -"+n+"\n"))
					panic(pathExit{2})
				}
				val, args = args[0], args[1:]
			}
			if d.kind == "int" {
				k, err := strconv.Atoi(val)
				if err != nil {
					panic(pathExit{2})
				}
				in.setCell(d.p, V{n: uint64(int64(k))})
			} else {
				in.setCell(d.p, S(val))
			}
		}
		in.rest = args
		return V{}
	}
	m["flag.Args"] = func(in *Interp, a []V) V {
		if in.rest == nil {
			return V{r: Slc{}}
		}
		return strSlcV(in.rest)
	}
	m["flag.NArg"] = func(in *Interp, a []V) V { return V{n: uint64(len(in.rest))} }
	m["flag.Arg"] = func(in *Interp, a []V) V {
		i := in.concInt(a[0])
		if i < 0 || i >= len(in.rest) {
			return S("")
		}
		return S(in.rest[i])
	}
	m["flag.PrintDefaults"] = func(in *Interp, a []V) V { in.emitFile(2, S("  (flags)\n")); return V{} }

	// encoding/json
	m["encoding/json.NewEncoder"] = func(in *Interp, a []V) V { return V{r: &Native{"json", &jsonEnc{w: a[0], escape: true}}} }
	m["(*encoding/json.Encoder).SetEscapeHTML"] = func(in *Interp, a []V) V {
		a[0].r.(*Native).x.(*jsonEnc).escape = a[1].n != 0
		return V{}
	}
	m["(*encoding/json.Encoder).Encode"] = func(in *Interp, a []V) V {
		e := a[0].r.(*Native).x.(*jsonEnc)
		b, ok := in.jsonEncode(a[1], e.escape)
		if !ok {
			return in.newError(S("json: unsupported value"))
		}
		in.write(e.w, mkStr(append(b, sb{c: '\n'})))
		return V{}
	}
	m["encoding/json.Marshal"] = func(in *Interp, a []V) V {
		b, ok := in.jsonEncode(a[0], true)
		if !ok {
			return tup(V{}, in.newError(S("json: unsupported value")))
		}
		return tup(in.strToSlc(mkStr(b)), V{})
	}
	unwrap := func(in *Interp, e V) V {
		i, ok := e.r.(*Iface)
		if !ok {
			return V{}
		}
		f := in.methodByName(i.t, "Unwrap")
		if f == nil || f.fn.Signature.Results().Len() != 1 || in.ti(f.fn.Signature.Results().At(0).Type()).k != kIface {
			return V{}
		}
		return in.callFn(f, []V{i.v}, nil, in.curFr)
	}
	m["errors.Unwrap"] = func(in *Interp, a []V) V { return unwrap(in, a[0]) }
	m["errors.Is"] = func(in *Interp, a []V) V {
		for e := a[0]; ; e = unwrap(in, e) {
			if in.branch(in.eqExpr(in.tiAny, e, a[1])) {
				return mkBool(true)
			}
			if e.r == nil {
				return mkBool(false)
			}
		}
	}
	m["errors.As"] = func(in *Interp, a []V) V {
		t, ok := a[1].r.(*Iface)
		if !ok || t.t.k != kPtr {
			in.rtPanic("errors: target must be a non-nil pointer")
		}
		et := t.t.pointee(in)
		for e := a[0]; e.r != nil; e = unwrap(in, e) {
			i := e.r.(*Iface)
			if et.k == kIface && in.implements(i.t, et) {
				in.setCell(in.cellOf(t.v), e)
				return mkBool(true)
			}
			if i.t == et {
				in.setCell(in.cellOf(t.v), i.v)
				return mkBool(true)
			}
		}
		return mkBool(false)
	}
	vpIntrinsics(m)
}

type flagDecl struct {
	kind string
	p    *V
}
