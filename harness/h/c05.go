package h

import (
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// num is a decoded number
type num struct {
	radix int // 0 for float
	i     int64
	f     string // text of float
	neg   bool
	end   int // negative when malformed
}

func letter(c byte) bool { return lower(c) || upper(c) }

// number decodes the number that starts with a digit at i
func number(s string, i int) (n num) {
	bad := num{end: -1}
	start := i
	n.radix = 10
	if s[i] == '0' && (at(s, i+1) == 'x' || at(s, i+1) == 'X') {
		n.radix = 16
		i += 2
		first := i
		for hexVal(at(s, i)) >= 0 {
			n.i = n.i*16 + int64(hexVal(s[i]))
			i++
		}
		if i == first || letter(at(s, i)) || at(s, i) == '_' {
			return bad
		}
		n.end = i
		return
	}
	if s[i] == '0' && digit(at(s, i+1)) {
		n.radix = 8
		i++
		for at(s, i) >= '0' && at(s, i) <= '7' {
			n.i = n.i*8 + int64(s[i]-'0')
			i++
		}
		if digit(at(s, i)) || letter(at(s, i)) {
			return bad
		}
		n.end = i
		return
	}
	for digit(at(s, i)) {
		n.i = n.i*10 + int64(s[i]-'0')
		i++
	}
	float := false
	if at(s, i) == '.' {
		float = true
		i++
		if !digit(at(s, i)) {
			return bad
		}
		for digit(at(s, i)) {
			i++
		}
	}
	if at(s, i) == 'e' || at(s, i) == 'E' {
		float = true
		i++
		if at(s, i) == '-' || at(s, i) == '+' {
			i++
		}
		if !digit(at(s, i)) {
			return bad
		}
		for digit(at(s, i)) {
			i++
		}
	}
	if letter(at(s, i)) {
		return bad
	}
	if float {
		n.radix, n.i, n.f = 0, 0, s[start:i]
	}
	n.end = i
	return
}

func isNumber(e parser.Expression, n num, src string) {
	if n.radix == 0 {
		f, ok := e.(*parser.LiteralFloat)
		if !ok {
			vp.Fail("not a float in " + src)
		}
		v, err := strconv.ParseFloat(n.f, 64)
		if err != nil {
			vp.Fail("harness")
		}
		if n.neg {
			v = -v
		}
		vp.Assert(f.Float() == v, "value of float in "+src)
		return
	}
	i, ok := e.(*parser.LiteralInteger)
	if !ok {
		vp.Fail("not an integer in " + src)
	}
	v := n.i
	if n.neg {
		v = -v
	}
	vp.Assert(i.Int() == v, "value of integer in "+src)
	vp.Assert(i.Radix() == n.radix, "radix of integer in "+src)
}

func checkNumber(s string) {
	neg := s[0] == '-'
	i := 0
	if neg {
		i = 1
	}
	vp.Assume(digit(at(s, i)))
	n := number(s, i)
	n.neg = neg
	src := "[" + s + ", 7]"
	if n.end < 0 {
		vp.Cover("malformed")
		rejected("p", src)
		return
	}
	vp.Assume(n.end == len(s)) // otherwise more than a number
	vp.Cover("number")
	isNumber(inList("p", src), n, src)
}

// C05_text: arbitrary texts that start with a digit or a sign and a digit.
func C05_text() {
	max := 4
	if vp.Thorough() {
		max = 6
	}
	checkNumber(vp.BytesOf("0123456789abefgxABEFGX_.-+", 1+vp.Choose(max)))
}

// C05_float: floats with exponents
func C05_float() {
	max := 2
	if vp.Thorough() {
		max = 3
	}
	s := []string{"", "-"}[vp.Choose(2)]
	digits := func(lo int) {
		for i := lo + vp.Choose(max+1-lo); i > 0; i-- {
			s += string([]byte{vp.ByteOf("059")})
		}
	}
	digits(1)
	if vp.Bool() {
		s += "."
		digits(0)
	}
	if vp.Bool() {
		s += []string{"e", "E", "e-", "e+", "E-", "e--"}[vp.Choose(6)]
		digits(0)
	}
	checkNumber(s)
}

// C05_bounds: the largest integers, and what lies beyond.
func C05_bounds() {
	k := vp.Choose(8)
	s := []string{"92233720368547758", "-92233720368547758", "0x7ffffffffffffff", "-0x7fffffffffffff", "0x800000000000000", "07777777777777777777", "-0100000000000000000000", "018"}[k]
	set := "0123456789"
	if s[0] == '0' && s[1] == 'x' || s[1] == '0' && s[2] == 'x' {
		set += "abcdefABCDEF"
	}
	n := 1 + vp.Choose(3)
	s += vp.BytesOf(set, n)
	src := "[" + s + ", 7]"
	// independent value: unsigned magnitude with overflow
	neg := s[0] == '-'
	i := 0
	if neg {
		i = 1
	}
	base := uint64(10)
	if s[i] == '0' {
		base = 8
		if s[i+1] == 'x' {
			base = 16
			i++
		}
		i++
	}
	limit := uint64(1) << 63
	if !neg {
		limit--
	}
	m := uint64(0)
	over := false
	for ; i < len(s); i++ {
		h := uint64(hexVal(s[i]))
		if h >= base {
			vp.Cover("illegal digit")
			rejected("p", src)
			return
		}
		if over || m > (limit-h)/base {
			over = true
			continue
		}
		m = m*base + h
	}
	if over {
		vp.Cover("out of range")
		rejected("p", src)
		return
	}
	x, ok := inList("p", src).(*parser.LiteralInteger)
	if !ok {
		vp.Fail("not an integer in " + src)
	}
	v := int64(m)
	if neg {
		v = int64(-m)
	}
	vp.Cover("in range")
	vp.Assert(x.Int() == v && x.Radix() == int(base), "value of integer in "+src)
}

// C05_huge: floats beyond the range are rejected.
func C05_huge() {
	e := []string{"308", "309", "400", "0308", "99999"}[vp.Choose(5)]
	m := []string{"1", "1.7", "1.8", "9.9", "0"}[vp.Choose(5)]
	s := []string{"", "-"}[vp.Choose(2)]
	src := "[" + s + m + "e" + e + ", 7]"
	bad := m != "0" && !(e[len(e)-3:] == "308" && (m == "1" || m == "1.7"))
	if bad {
		rejected("p", src)
		return
	}
	n := number(m+"e"+e, 0)
	n.neg = s == "-"
	isNumber(inList("p", src), n, src)
}

// C05_minus: a minus sign is an operator after an operand, and a sign
// before a number otherwise.
func C05_minus() {
	d := string([]byte{vp.ByteOf("123456789")})
	a := []string{"$a", "8", "b[8]", "(8)", "$b.c()", "'b'"}[vp.Choose(6)]
	l := []string{"", " "}[vp.Choose(2)]
	r := []string{"", " "}[vp.Choose(2)]
	const h, e = "(block (array ", "))"
	x := mustPN("p", "["+a+"]")
	x = x[len(h) : len(x)-len(e)]
	switch vp.Choose(6) {
	case 0:
		expectPN("p", "["+a+l+"-"+r+d+"]", h+"(- "+x+" "+d+")"+e)
	case 1:
		expectPN("p", "["+a+l+"+"+r+d+"]", h+"(+ "+x+" "+d+")"+e)
	case 2:
		expectPN("p", "["+l+"-"+d+r+"*"+l+a+"]", h+"(* -"+d+" "+x+")"+e)
	case 3:
		expectPN("p", "["+a+l+"-"+r+"-"+d+"]", h+"(- "+x+" -"+d+")"+e)
	case 4:
		expectPN("p", "["+a+l+","+r+"-"+d+"]", h+x+" -"+d+e)
	default:
		expectPN("p", "["+l+"+"+d+r+"]", h+d+e)
	}
}

// C05_notation: the radix of an integer is retained.
func C05_notation() {
	a, b := vp.ByteOf("123456789"), vp.ByteOf("01234567")
	s := string([]byte{a, b})
	expectPN("p", "["+s+"]", "(block (array "+s+"))")
	v := strconv.Itoa(int(a-'0')*16 + int(b-'0'))
	expectPN("p", "[0x"+s+"]", "(block (array (int {:radix 16 :value "+v+"})))")
	if a < '8' {
		v = strconv.Itoa(int(a-'0')*8 + int(b-'0'))
		expectPN("p", "[0"+s+"]", "(block (array (int {:radix 8 :value "+v+"})))")
	}
}

// C05_several: a number does not depend on the numbers before it.
func C05_several() {
	one := func() (string, num) {
		c := vp.ByteOf("1234567")
		d := string([]byte{c})
		v := int64(c - '0')
		switch vp.Choose(7) {
		case 1:
			return "0x" + d, num{radix: 16, i: v}
		case 2:
			return "0" + d, num{radix: 8, i: v}
		case 3:
			return d + ".5", num{f: d + ".5"}
		case 4:
			return "-" + d, num{radix: 10, i: v, neg: true}
		case 5:
			return "-0x" + d, num{radix: 16, i: v, neg: true}
		case 6:
			return "-" + d + "e2", num{f: d + "e2", neg: true}
		}
		return d, num{radix: 10, i: v}
	}
	a, x := one()
	b, y := one()
	c, z := one()
	src := "[" + a + ", " + b + ", " + c + "]"
	l := mustParse("p", src).(*parser.Program).Body().(*parser.BlockExpression).Statements()[0].(*parser.LiteralList).Elements()
	vp.Assert(len(l) == 3, "elements of "+src)
	isNumber(l[0], x, src)
	isNumber(l[1], y, src)
	isNumber(l[2], z, src)
}

var numberForms = []string{"$x = ^ + ^", "f(^, ^)", "{ ^ => ^ }", "a { 'b': c => ^, d => ^ }", "class a($b = ^, $c = ^) { }", "case ^ { ^: { } }", "$x ? { ^ => 'a', default => ^ }", "A[^, ^]", "f(^) |$x = ^| { }", "\"${[^]}${[^]}\"", "^ << ^", "[[^], ^]", "if ^ { ^ }", "A <| b == ^ and c == ^ |>", "type A = B[^, ^]"}

// C05_places: numbers in all places.
func C05_places() {
	var n, p [2]string
	for i := range n {
		k := vp.Choose(6)
		n[i] = []string{"12", "0x12", "012", "1.5", "12e1", "0"}[k]
		p[i] = []string{"12", "(int {:radix 16 :value 18})", "(int {:radix 8 :value 10})", "1.5", "1.2e+02", "0"}[k]
	}
	f := numberForms[vp.Choose(len(numberForms))]
	src := strings.Replace(strings.Replace(f, "^", n[0], 1), "^", n[1], 1)
	a, b := strings.Replace(strings.Replace(f, "^", "7", 1), "^", "8", 1), p[0]
	want := mustParse("p", a).ToPN().String()
	i := strings.Index(want, "7")
	k := strings.Index(want, "8")
	if i < 0 || k < i {
		vp.Fail("harness " + want)
	}
	want = want[:i] + b + want[i+1:k] + p[1] + want[k+1:]
	got := mustParse("p", src).ToPN().String()
	vp.Assert(got == want, src+" gives "+got+" instead of "+want)
}
