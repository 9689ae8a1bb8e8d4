package h

import (
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// seg is a part of a string: text or the name of a variable
type seg struct {
	v bool
	s string
}

func lower(c byte) bool  { return c >= 'a' && c <= 'z' }
func upper(c byte) bool  { return c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func wordCh(c byte) bool { return lower(c) || upper(c) || digit(c) || c == '_' }
func hexVal(c byte) int {
	switch {
	case digit(c):
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// at returns the byte at i or zero
func at(s string, i int) byte {
	if i >= 0 && i < len(s) {
		return s[i]
	}
	return 0
}

// single decodes the content of a single quoted string that continues with
// rest. The index after the closing quote is negative when there is none.
func single(s string) (val string, end int) {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\'' {
			return string(b), i + 1
		}
		if c == '\\' {
			d := at(s, i+1)
			if d == '\'' || d == '\\' {
				b = append(b, d)
				i++
				continue
			}
		}
		b = append(b, c)
	}
	return "", -1
}

// varName returns the end of the variable name that starts at i (after the
// dollar sign). The result is negative when there is no legal name.
func varName(s string, i int) int {
	if digit(at(s, i)) {
		for digit(at(s, i)) {
			i++
		}
		return i
	}
	if at(s, i) == ':' {
		if at(s, i+1) != ':' || !lower(at(s, i+2)) {
			return -1
		}
		i += 2
	}
	if !lower(at(s, i)) {
		return -1
	}
	last := false
	for {
		for wordCh(at(s, i)) {
			i++
		}
		if at(s, i) != ':' || at(s, i+1) != ':' {
			return i
		}
		if last || !lower(at(s, i+2)) && at(s, i+2) != '_' {
			return -1
		}
		last = at(s, i+2) == '_'
		i += 3
	}
}

// unicodeEscape decodes the digits of an escape at i (after the u). The end
// is negative when it is malformed.
func unicodeEscape(s string, i int) (r rune, end int) {
	n := 0
	v := 0
	if at(s, i) == '{' {
		i++
		for hexVal(at(s, i)) >= 0 {
			v = v*16 + hexVal(at(s, i))
			i++
			n++
		}
		if n < 2 || n > 6 || at(s, i) != '}' {
			return 0, -1
		}
		i++
	} else {
		for n < 4 {
			if hexVal(at(s, i)) < 0 {
				return 0, -1
			}
			v = v*16 + hexVal(at(s, i))
			i++
			n++
		}
	}
	if v > 0x10ffff || v >= 0xd800 && v <= 0xdfff {
		return 0, -1
	}
	return rune(v), i
}

// double decodes the content of a double quoted string up to the closing
// quote. The end is negative when the string is malformed.
func double(s string, hex bool) (segs []seg, end int) {
	var b []byte
	flush := func() {
		if len(b) > 0 {
			segs = append(segs, seg{false, string(b)})
			b = nil
		}
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch c {
		case '"':
			flush()
			if len(segs) == 0 {
				segs = []seg{{false, ""}}
			}
			return segs, i + 1
		case '$':
			e := varName(s, i+1)
			if e < 0 {
				return nil, -1
			}
			flush()
			segs = append(segs, seg{true, s[i+1 : e]})
			i = e - 1
		case '\\':
			d := at(s, i+1)
			i++
			switch d {
			case '\\', '\'', '"', '$':
				b = append(b, d)
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 's':
				b = append(b, ' ')
			case 'u':
				r, e := unicodeEscape(s, i+1)
				if e < 0 {
					return nil, -1
				}
				b = append(b, string(r)...)
				i = e - 1
			case 'x':
				if hex {
					h, l := hexVal(at(s, i+1)), hexVal(at(s, i+2))
					if h < 0 || l < 0 {
						return nil, -1
					}
					b = append(b, byte(h*16+l))
					i += 2
					break
				}
				b = append(b, '\\', 'x')
			default:
				if i < len(s) {
					b = append(b, '\\', d)
				}
			}
		default:
			b = append(b, c)
		}
	}
	return nil, -1
}

// stmt parses a source and returns its only statement
func stmt(mode, src string) parser.Expression {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	if p, ok := e.(*parser.Program); ok {
		e = p.Body()
	}
	b := e.(*parser.BlockExpression)
	if len(b.Statements()) != 1 {
		vp.Fail("not one statement in " + src)
	}
	return b.Statements()[0]
}

// inList parses a list that consists of one literal and the number 7 and
// returns the literal.
func inList(mode, src string) parser.Expression {
	l, ok := stmt(mode, src).(*parser.LiteralList)
	if !ok || len(l.Elements()) != 2 {
		vp.Fail("not a list of two in " + src)
	}
	i, ok := l.Elements()[1].(*parser.LiteralInteger)
	vp.Assert(ok && i.Int() == 7, "end of list in "+src)
	return l.Elements()[0]
}

func isString(e parser.Expression, v, src string) {
	s, ok := e.(*parser.LiteralString)
	if !ok {
		vp.Fail("not a string in " + src)
	}
	vp.Assert(s.StringValue() == v, "string is "+s.StringValue()+" in "+src)
}

// isVariable checks that e is the variable with the given name
func isVariable(e parser.Expression, name, src string) {
	v, ok := e.(*parser.VariableExpression)
	if !ok {
		vp.Fail("not a variable in " + src)
	}
	if digit(at(name, 0)) {
		n := int64(0)
		for i := 0; i < len(name); i++ {
			n = n*10 + int64(name[i]-'0')
		}
		x, ok := v.Index()
		vp.Assert(ok && x == n, "variable index in "+src)
		return
	}
	x, ok := v.Name()
	vp.Assert(ok && x == name, "variable is "+x+" in "+src)
}

func isSegments(e parser.Expression, segs []seg, src string) {
	if len(segs) == 1 && !segs[0].v {
		isString(e, segs[0].s, src)
		return
	}
	c, ok := e.(*parser.ConcatenatedString)
	if !ok {
		vp.Fail("not an interpolated string in " + src)
	}
	if len(c.Segments()) != len(segs) {
		vp.Fail("number of segments in " + src)
	}
	for i, x := range c.Segments() {
		if !segs[i].v {
			isString(x, segs[i].s, src)
			continue
		}
		t, ok := x.(*parser.TextExpression)
		if !ok {
			vp.Fail("no interpolation in " + src)
		}
		isVariable(t.Expr(), segs[i].s, src)
	}
}

// content returns the symbolic content of a literal: ASCII, or any text.
func content(quick, thorough int) string {
	wide := []string{"", "\u00e5", "\u4e16\U0001f600"}[vp.Choose(3)]
	if wide != "" {
		quick, thorough = 3, 4
	}
	s := vp.Bytes(lenFor(quick, thorough))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80)
	}
	return wide + s
}

func rejected(mode, src string) {
	if e, err := ParseMode(mode, src); err == nil {
		vp.Fail("accepted as " + e.ToPN().String() + ": " + src)
	}
}

// C04_single: single quoted strings.
func C04_single() {
	s := content(6, 8)
	src := "['" + s + "', 7]"
	v, end := single(src[2:])
	if end < 0 {
		vp.Cover("unterminated")
		rejected("p", src)
		return
	}
	if end != len(s)+1 {
		return // ends early
	}
	isString(inList("p", src), v, src)
}

// C04_double: double quoted strings with escapes and variables.
func C04_double() {
	s := content(5, 6)
	for i := 1; i < len(s); i++ {
		vp.Assume(s[i-1] != '$' || s[i] != '{')
	}
	mode := "p"
	if vp.Bool() {
		mode = "b"
	}
	src := `["` + s + `", 7]`
	segs, end := double(src[2:], mode == "b")
	if end < 0 {
		vp.Cover("malformed")
		rejected(mode, src)
		return
	}
	if end != len(s)+1 {
		return // ends early
	}
	isSegments(inList(mode, src), segs, src)
}

// C04_variable: names of interpolated variables.
func C04_variable() {
	n := 5
	if vp.Thorough() {
		n = 7
	}
	s := "x $" + vp.BytesOf("aZ_:0-$ ", n)
	src := `["` + s + `", 7]`
	segs, end := double(src[2:], false)
	if end < 0 {
		vp.Cover("malformed")
		rejected("p", src)
		return
	}
	vp.Assert(end == len(s)+1, "harness")
	isSegments(inList("p", src), segs, src)
}

// C04_unicode: unicode escapes.
func C04_unicode() {
	var s string
	four, more := "0dFg", "01F"
	if vp.Thorough() {
		four, more = "079aAdDfFgG{", "01dF"
	}
	if vp.Bool() {
		s = vp.BytesOf(four, 4)
	} else {
		max := 6
		if vp.Thorough() {
			max = 7
		}
		n := vp.Choose(max + 1)
		s = "{" + vp.BytesOf(more, n) + string([]byte{vp.ByteOf("}g")})
	}
	s = `y\u` + s + `z`
	src := `["` + s + `", 7]`
	segs, end := double(src[2:], false)
	if end < 0 {
		vp.Cover("malformed")
		rejected("p", src)
		return
	}
	isSegments(inList("p", src), segs, src)
}

// C04_hex: hexadecimal escapes, when enabled.
func C04_hex() {
	mode := "p"
	if vp.Bool() {
		mode = "b"
	}
	c, d := vp.Byte(), vp.Byte()
	vp.Assume(c > 0 && c < 0x80 && d > 0 && d < 0x80 && c != '$' && d != '$' && c != '"' && d != '"' && c != '\\' && d != '\\')
	src := `["y\x` + string([]byte{c, d}) + `z", 7]`
	segs, end := double(src[2:], mode == "b")
	if end < 0 {
		rejected(mode, src)
		return
	}
	isSegments(inList(mode, src), segs, src)
}

// C04_backtick: backtick strings are raw, and only legal when enabled.
func C04_backtick() {
	s := content(6, 8)
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '`')
	}
	src := "[`" + s + "`, 7]"
	isString(inList("b", src), s, src)
	rejected("b", "[`"+s)
	if len(s) < 3 {
		rejected("p", src)
	}
}

// C04_regexp: regular expressions.
func C04_regexp() {
	s := content(6, 8)
	vp.Assume(at(s, 0) != '*')
	src := "[/" + s + "/, 7]"
	var v []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return
		}
		if s[i] == '\\' {
			if i+1 == len(s) {
				return // escapes the end
			}
			i++
			if s[i] != '/' {
				v = append(v, '\\')
			}
		}
		v = append(v, s[i])
	}
	r, ok := inList("p", src).(*parser.RegexpExpression)
	if !ok {
		vp.Fail("not a regexp in " + src)
	}
	vp.Assert(r.PatternString() == string(v), "pattern is "+r.PatternString()+" in "+src)
}

// C04_divide: a slash after an operand is a division.
func C04_divide() {
	t := []string{"$a", "7", "7.5", "'b'", `"b"`, `"$b"`, "b", "B", "(7)", "[7]", "b[7]", "$b[7]", "true"}
	a := t[vp.Choose(len(t))]
	b := t[vp.Choose(len(t))]
	sp := []string{"", " "}[vp.Choose(2)]
	src := "[" + a + sp + "/" + sp + b + sp + "/" + sp + "7" + "]"
	x, y := mustPN("p", "["+a+"]"), mustPN("p", "["+b+"]")
	const h, e = "(block (array ", "))"
	expectPN("p", src, h+"(/ (/ "+x[len(h):len(x)-len(e)]+" "+y[len(h):len(y)-len(e)]+") 7)"+e)
}

// C04_nested: strings within interpolated expressions.
func C04_nested() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	part := func() string {
		s := vp.Bytes(vp.Choose(n + 1))
		for i := 0; i < len(s); i++ {
			vp.Assume(s[i] > 0 && s[i] < 0x80 && s[i] != '\\' && s[i] != '\'' && s[i] != '"' && s[i] != '$')
		}
		return s
	}
	a, b, c := part(), part(), part()
	q := []string{"'", `"`}[vp.Choose(2)]
	src := `["` + a + `${` + q + b + q + `}` + c + `", 7]`
	l := inList("p", src).(*parser.ConcatenatedString)
	segs := l.Segments()
	if a != "" {
		isString(segs[0], a, src)
		segs = segs[1:]
	}
	t, ok := segs[0].(*parser.TextExpression)
	if !ok {
		vp.Fail("no interpolation in " + src)
	}
	isString(t.Expr(), b, src)
	segs = segs[1:]
	if c != "" {
		if len(segs) == 0 {
			vp.Fail("lost text in " + src)
		}
		isString(segs[0], c, src)
		segs = segs[1:]
	}
	vp.Assert(len(segs) == 0, "number of segments in "+src)
}

// C04_braces: a name that starts an interpolated expression is a variable,
// whatever is accessed or called from there.
func C04_braces() {
	n := 3
	if vp.Thorough() {
		n = 5
	}
	name := string([]byte{'q', vp.ByteOf(nameTail)})
	if vp.Bool() {
		name = "::r::" + name
	}
	x := ""
	for i := vp.Choose(n + 1); i > 0; i-- {
		x += []string{"[7]", ".b", ".b(7)", "['x', $y]", ".b |$z| { $z }"}[vp.Choose(5)]
	}
	plain := mustPN("p", "[$"+name+x+"]")
	const h, e = "(block (array ", "))"
	if !hasByte(x, '(') && !hasByte(x, '|') && len(x) > 1 && x[len(x)-1] == 'b' {
		return // a statement call outside of a list
	}
	expectPN("p", `["ab${`+name+x+`}c"]`, h+`(concat "ab" (str `+plain[len(h):len(plain)-len(e)]+`) "c")`+e)
}

// C04_utf8: text beyond ASCII is retained in all kinds of strings.
func C04_utf8() {
	n := 2 + vp.Choose(2)
	if vp.Thorough() {
		n = 2 + vp.Choose(3)
	}
	s := vp.Bytes(n)
	vp.Assume(s[0] >= 0xc0 && utf8.ValidString(s))
	for i := 0; i < n; i++ {
		vp.Assume(s[i] >= 0x80)
	}
	k := vp.Choose(4)
	o := []string{"'", `"`, "`", "/"}[k]
	mode := "b"
	src := "[" + o + s + o + ", 7]"
	e := inList(mode, src)
	if k == 3 {
		r, ok := e.(*parser.RegexpExpression)
		vp.Assert(ok && r.PatternString() == s, "pattern in "+src)
		return
	}
	isString(e, s, src)
}
