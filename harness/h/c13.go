package h

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/pn"

	"vpharness/vp"
)

// mirror is what a notation text is expected to denote
type mirror struct {
	kind byte // s string, i integer, b boolean, n nil, l list, m map, c call
	s    string
	i    int64
	b    bool
	kids []mirror
	keys []string
}

func same(a, b *mirror) bool {
	if a.kind != b.kind || len(a.kids) != len(b.kids) || a.i != b.i || a.b != b.b || a.s != b.s {
		return false
	}
	for i := range a.keys {
		if a.keys[i] != b.keys[i] {
			return false
		}
	}
	for i := range a.kids {
		if !same(&a.kids[i], &b.kids[i]) {
			return false
		}
	}
	return true
}

// reader reads the notation
type reader struct {
	s string
	i int
}

func (r *reader) bad(why string) { vp.Fail(why + " in notation " + r.s) }

func (r *reader) peek() byte {
	if r.i >= len(r.s) {
		r.bad("unexpected end")
	}
	return r.s[r.i]
}

func (r *reader) word() string {
	st := r.i
	for r.i < len(r.s) && r.s[r.i] != ' ' && r.s[r.i] != ')' && r.s[r.i] != ']' && r.s[r.i] != '}' && r.s[r.i] != '"' && r.s[r.i] != '(' && r.s[r.i] != '[' && r.s[r.i] != '{' {
		r.i++
	}
	return r.s[st:r.i]
}

func (r *reader) kids(m *mirror, end byte, first bool) {
	for r.peek() != end {
		if !first {
			if r.peek() != ' ' {
				r.bad("missing space")
			}
			r.i++
		}
		first = false
		if m.kind == 'm' {
			if r.peek() != ':' {
				r.bad("missing key")
			}
			r.i++
			m.keys = append(m.keys, r.word())
			if r.peek() != ' ' {
				r.bad("missing value")
			}
			r.i++
		}
		m.kids = append(m.kids, r.value())
	}
	r.i++
}

func (r *reader) value() (m mirror) {
	switch c := r.peek(); c {
	case '[':
		r.i++
		m.kind = 'l'
		r.kids(&m, ']', true)
	case '{':
		r.i++
		m.kind = 'm'
		r.kids(&m, '}', true)
	case '(':
		r.i++
		m.kind = 'c'
		m.s = r.word()
		r.kids(&m, ')', false)
	case '"':
		r.i++
		m.kind = 's'
		var b []byte
		for r.peek() != '"' {
			c := r.peek()
			r.i++
			if c != '\\' {
				if c < ' ' {
					r.bad("control character")
				}
				b = append(b, c)
				continue
			}
			c = r.peek()
			r.i++
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case '\\', '"':
			case 'o':
				if r.i+3 > len(r.s) {
					r.bad("short octal")
				}
				v := byte(0)
				for k := 0; k < 3; k++ {
					d := r.s[r.i]
					if d < '0' || d > '7' {
						r.bad("illegal octal")
					}
					v = v*8 + d - '0'
					r.i++
				}
				c = v
			default:
				r.bad("unknown escape")
			}
			b = append(b, c)
		}
		r.i++
		m.s = string(b)
	default:
		w := r.word()
		switch w {
		case "nil":
			m.kind = 'n'
		case "true", "false":
			m.kind, m.b = 'b', w == "true"
		default:
			m.kind = 'i'
			neg := false
			for k := 0; k < len(w); k++ {
				if k == 0 && w[0] == '-' && len(w) > 1 {
					neg = true
					continue
				}
				if w[k] < '0' || w[k] > '9' {
					r.bad("unknown word " + w)
				}
				m.i = m.i*10 + int64(w[k]-'0')
			}
			if neg {
				m.i = -m.i
			}
		}
	}
	return
}

func readNotation(s string) mirror {
	r := &reader{s: s}
	m := r.value()
	if r.i != len(s) {
		r.bad("text after end")
	}
	return m
}

const callNames = "abz+-=<>!?*~/%"

// build returns an arbitrary notation of bounded depth
func build(depth int, nested bool) (pn.PN, mirror) {
	k := vp.Choose(7)
	if depth == 0 {
		vp.Assume(k < 4)
	}
	switch k {
	case 0:
		n := vp.Choose(2)
		if vp.Thorough() {
			n = vp.Choose(3)
		}
		s := vp.Bytes(n)
		for i := 0; i < n; i++ {
			vp.Assume(s[i] < 0x80)
		}
		return pn.Literal(s), mirror{kind: 's', s: s}
	case 1:
		i := []int64{0, 7, -1, 10, -9223372036854775808, 9223372036854775807}[vp.Choose(6)]
		if !nested {
			i = int64(vp.Int(-120, 120))
		}
		return pn.Literal(i), mirror{kind: 'i', i: i}
	case 2:
		b := vp.Bool()
		return pn.Literal(b), mirror{kind: 'b', b: b}
	case 3:
		return pn.Literal(nil), mirror{kind: 'n'}
	}
	n := vp.Choose(3)
	var ps []pn.PN
	var es []pn.Entry
	m := mirror{}
	for i := 0; i < n; i++ {
		d := depth - 1
		if i > 0 {
			d = 0 // bound
		}
		p, x := build(d, true)
		ps = append(ps, p)
		m.kids = append(m.kids, x)
		if k == 5 {
			key := string([]byte{vp.ByteOf("aZ_-"), vp.ByteOf("bQ_-09")})
			es = append(es, p.WithName(key))
			m.keys = append(m.keys, key)
		}
	}
	switch k {
	case 4:
		m.kind = 'l'
		return pn.List(ps), m
	case 5:
		m.kind = 'm'
		return pn.Map(es), m
	}
	m.kind = 'c'
	m.s = string([]byte{vp.ByteOf(callNames)})
	return pn.Call(m.s, ps...), m
}

func dataOf(m *mirror) interface{} {
	switch m.kind {
	case 's':
		return m.s
	case 'i':
		return m.i
	case 'b':
		return m.b
	case 'n':
		return nil
	}
	var d []interface{}
	if m.kind == 'c' {
		d = append(d, m.s)
	}
	for i := range m.kids {
		if m.kind == 'm' {
			d = append(d, m.keys[i])
		}
		d = append(d, dataOf(&m.kids[i]))
	}
	switch m.kind {
	case 'm':
		return map[string]interface{}{"#": d}
	case 'c':
		return map[string]interface{}{"^": d}
	}
	return d
}

func eqData(a, b interface{}) bool {
	switch a := a.(type) {
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !eqData(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !eqData(v, w) {
				return false
			}
		}
		return true
	case string:
		b, ok := b.(string)
		return ok && a == b
	case int64:
		if b, ok := b.(int); ok {
			return a == int64(b)
		}
		b, ok := b.(int64)
		return ok && a == b
	case int:
		return eqData(int64(a), b)
	case bool:
		b, ok := b.(bool)
		return ok && a == b
	}
	return a == nil && b == nil
}

// C13_read: the text and the data of arbitrary notations can be read back.
func C13_read() {
	d := 1
	if vp.Thorough() {
		d = 2
	}
	p, m := build(d, false)
	s := p.String()
	got := readNotation(s)
	vp.Assert(same(&got, &m), "notation does not denote the value: "+s)
	vp.Assert(pn.ToString(p) == s, "ToString differs")
	b := bytes.NewBufferString("x")
	p.Format(b)
	vp.Assert(b.String() == "x"+s, "Format differs")
	vp.Assert(eqData(p.ToData(), dataOf(&m)), "data does not denote the value: "+s)
	vp.Assert(p.String() == s, "not repeatable")
}

// C13_deep: deeper structures with fixed leaves
func C13_deep() {
	n := 3
	p, m := pn.Literal(int64(7)), mirror{kind: 'i', i: 7}
	for i := 0; i < n; i++ {
		side := vp.Choose(3)
		ps, ks := []pn.PN{p}, []mirror{m}
		if side == 1 {
			ps, ks = append(ps, pn.Literal("x y")), append(ks, mirror{kind: 's', s: "x y"})
		} else if side == 2 {
			ps, ks = []pn.PN{pn.Literal(nil), p}, []mirror{{kind: 'n'}, m}
		}
		switch vp.Choose(3) {
		case 0:
			p, m = pn.List(ps), mirror{kind: 'l', kids: ks}
		case 1:
			p, m = pn.Call("f", ps...), mirror{kind: 'c', s: "f", kids: ks}
		default:
			var es []pn.Entry
			mm := mirror{kind: 'm', kids: ks}
			for j := range ps {
				k := string([]byte{'k', byte('0' + j)})
				es = append(es, ps[j].WithName(k))
				mm.keys = append(mm.keys, k)
			}
			p, m = pn.Map(es), mm
		}
		switch vp.Choose(3) {
		case 1:
			// call with name
			q := p.AsCall("g")
			if m.kind == 'm' {
				m = mirror{kind: 'c', s: "g", kids: []mirror{m}}
			} else {
				m.kind, m.s = 'c', "g"
			}
			p = q
		case 2:
			// as parameters
			as := p.AsParameters()
			if m.kind == 'm' {
				m = mirror{kind: 'l', kids: []mirror{m}}
			} else {
				m.kind, m.s = 'l', ""
			}
			p = pn.List(as)
		}
	}
	s := p.String()
	got := readNotation(s)
	vp.Assert(same(&got, &m), "notation does not denote the value: "+s)
	vp.Assert(eqData(p.ToData(), dataOf(&m)), "data does not denote the value: "+s)
}

// C13_entry: entries, and literals as calls and parameters
func C13_entry() {
	k := string([]byte{vp.ByteOf("aZ_-"), vp.ByteOf("bQ_-09")})
	p, m := build(0, false)
	e := p.WithName(k)
	vp.Assert(e.Key() == k && e.Value() == p, "entry")
	as := p.AsParameters()
	vp.Assert(len(as) == 1 && as[0] == p, "parameters of literal")
	got := readNotation(p.AsCall("f").String())
	w := mirror{kind: 'c', s: "f", kids: []mirror{m}}
	vp.Assert(same(&got, &w), "call of literal")
}

// C13_keys: exactly the keys that can be read back are accepted.
func C13_keys() {
	k := vp.Bytes(lenFor(3, 4))
	legal := len(k) > 0
	for i := 0; i < len(k); i++ {
		c := k[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_' || c == '-' || i > 0 && c >= '0' && c <= '9') {
			legal = false
		}
	}
	vp.Assert(pn.IsKey(k) == legal, "key")
	bad := try(func() { pn.Map([]pn.Entry{pn.Literal(nil).WithName("a"), pn.Literal(nil).WithName(k)}) })
	vp.Assert(bad == !legal, "map key")
}

// C13_quote: quoted text can be read back and is unambiguous.
func C13_quote() {
	s := vp.Bytes(lenFor(3, 5))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] < 0x80)
	}
	if vp.Bool() {
		s = "\u00e5" + s + "\u4e16\U0001f600"
	}
	b := bytes.NewBufferString("")
	pn.DoubleQuote(s, b)
	m := readNotation(b.String())
	vp.Assert(m.kind == 's' && m.s == s, "quoted text denotes "+m.s)
}

// C13_tree: the notation of every tree can be read, and the data says the
// same.
func C13_tree() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err != nil {
		vp.Fail(err.Error())
	}
	p := e.ToPN()
	s := p.String()
	if src == "$a = 1.5e-3" {
		return // floats: C13_float
	}
	m := readNotation(s)
	vp.Assert(eqData(p.ToData(), dataOf(&m)), "text and data differ: "+s)
}

// C13_float: the text of a float denotes the float to 16 digits, and no
// integer.
func C13_float() {
	digits := []string{"0", "5", "9", "19", "50", "95"}[vp.Choose(6)]
	f := []string{"1", "12", "120", "1234567", "0", "100000000000", "9007199254740993"}[vp.Choose(7)] + "." +
		[]string{"0", "5", "05", "000001", "30", ""}[vp.Choose(6)] + digits +
		[]string{"", "e1", "e10", "e20", "e100", "e-1", "e-10", "e-100", "e15", "e16", "e17", "e-4", "e-5", "e-6"}[vp.Choose(14)]
	v, err := strconv.ParseFloat(f, 64)
	if err != nil {
		vp.Fail("harness")
	}
	if vp.Bool() {
		v = -v
	}
	s := pn.Literal(v).String()
	point := false
	for i := 0; i < len(s); i++ {
		point = point || s[i] == '.' || s[i] == 'e'
	}
	vp.Assert(point, "float looks like an integer: "+s)
	got, err := strconv.ParseFloat(s, 64)
	if err != nil {
		vp.Fail("float cannot be read: " + s)
	}
	exp, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'e', 15, 64), 64)
	vp.Assert(got == exp, "float denotes something else: "+s)
}

// C13_grammar: the notation of combinations of constructs.
func C13_grammar() {
	e, src, _ := someGram(2, 3).tree()
	if strings.Contains(src, "1.5") {
		return // floats: C13_float
	}
	s := e.ToPN().String()
	m := readNotation(s)
	vp.Assert(eqData(e.ToPN().ToData(), dataOf(&m)), "text and data differ: "+s)
}
