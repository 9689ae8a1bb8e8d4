package h

import (
	"strings"

	"vpharness/vp"
)

// hashKey returns an arbitrary key, and what identifies its value. It is
// empty when the value is not known.
func hashKey() (src, id string) {
	switch vp.Choose(18) {
	case 0:
		c := vp.BytesOf(nameTail, 1)
		return "a" + c, "s:a" + c
	case 1:
		c := vp.Bytes(1)
		vp.Assume(c[0] < 0x80 && c[0] > 0 && c[0] != '\'' && c[0] != '\\')
		return "'a" + c + "'", "s:a" + c
	case 2:
		c := vp.Bytes(1)
		vp.Assume(c[0] < 0x80 && c[0] > 0 && c[0] != '"' && c[0] != '\\' && c[0] != '$')
		return "\"a" + c + "\"", "s:a" + c
	case 3:
		c := vp.BytesOf("123456789", 1)
		return c, "i:" + c
	case 4:
		c := vp.BytesOf("123456789", 1)
		return []string{"0x", "0X0"}[vp.Choose(2)] + c, "i:" + c
	case 5:
		c := vp.BytesOf("1234567", 1)
		return []string{"0", "00"}[vp.Choose(2)] + c, "i:" + c
	case 6:
		c := vp.ByteOf("34")
		if c == '3' {
			return []string{"3.5", "35.0e-1", "3.50"}[vp.Choose(3)], "f:3.5"
		}
		return []string{"4.0", "0.4e1"}[vp.Choose(2)], "f:4"
	case 7:
		w := []string{"true", "false", "undef", "default"}[vp.Choose(4)]
		return w, "k:" + w
	case 8:
		w := []string{"true", "false", "undef", "default", "4", "4.0", "/a/", "[4]", "Aa"}[vp.Choose(9)]
		return "'" + w + "'", "s:" + w
	case 9:
		c := vp.BytesOf(nameTail, 1)
		return "/" + c + "/", "r:" + c
	case 10:
		c := vp.BytesOf("123456789", 1)
		return []string{"[", "[ "}[vp.Choose(2)] + c + "]", "l:" + c
	case 11:
		c := vp.BytesOf(nameTail, 1)
		return "['" + c + "', 1]", "l:'" + c + "'1"
	case 12:
		c := vp.BytesOf(nameTail, 1)
		return "A" + c, "t:A" + c
	case 13:
		c := vp.BytesOf(nameTail, 1)
		return []string{"{ x => '", "{ x=>'"}[vp.Choose(2)] + c + "' }", "h:" + c
	case 14:
		c := vp.BytesOf("123456789", 1)
		return []string{"-", "-0x"}[vp.Choose(2)] + c, "i:-" + c
	case 15:
		return []string{"$a", "f(1)", "(1)", "\"a${b}\"", "-$a", "A[1]", "[$a]", "a ? { 1 => 2 }", "1 + 1", "[]", "{}", "[[]]"}[vp.Choose(9)], ""
	case 16:
		w := []string{"[]", "{}", "[[]]", "[{}]", "[true]", "['true']", "[A]", "['A']", "[undef]"}[vp.Choose(9)]
		return w, "z:" + w
	}
	w := []string{"type", "function", "plan"}[vp.Choose(3)]
	return w, "s:" + w
}

func equalKey(a, b string) bool { return a != "" && a == b }

// C17_keys: two keys, in every place.
func C17_keys() {
	a, ia := hashKey()
	b, ib := hashKey()
	m := ""
	if equalKey(ia, ib) {
		m = "#G"
	}
	var s string
	switch vp.Choose(2) {
	case 0:
		s = "$h = { " + a + " => 1, " + m + b + " => 2 }"
	case 1:
		s = "f({ zz => { " + a + " => 1, " + m + b + " => 2, }, yy => 3 })"
	}
	i := strings.Index(s, "#G")
	if i < 0 {
		checkIssues("p", s, nil)
		return
	}
	expectIssuesFrom(s, i)
}

// expectIssuesFrom expects a duplicate at the mark at index i
func expectIssuesFrom(s string, i int) {
	src := s[:i] + s[i+2:]
	line, pos := 1, 1
	for k := 0; k < i; k++ {
		pos++
		if src[k] == '\n' {
			line, pos = line+1, 1
		}
	}
	checkIssues("p", src, []string{itoa(line) + ":" + itoa(pos) + " DUPLICATE_KEY"})
}

// C17_three: three keys, two or three of them the same.
func C17_three() {
	k := []string{"a", "'a'", "1", "0x1", "/a/", "[1]", "$a", "1.0", "A", "\"a\"", "01"}
	id := []string{"a", "a", "1", "1", "r", "l", "", "f", "A", "a", "1"}
	n := 3
	if vp.Thorough() {
		n = 4
	}
	s, seen := "$x.y({ ", []string{}
	for i := 0; i < n; i++ {
		j := vp.Choose(len(k))
		if i > 0 {
			s += ", "
		}
		for _, o := range seen {
			if equalKey(o, id[j]) {
				s += "#G"
				break
			}
		}
		seen = append(seen, id[j])
		s += k[j] + " => " + itoa(i)
	}
	expectIssues("p", s+" })")
}

var hashPlaces = []string{"$x = ^", "f(^)", "notice(^)", "[1, ^]", "$x = { z => ^ }", "$x = { ^ => 1 }", "a { 'b': c => ^ }", "a { 'b': * => ^ }", "A { c => ^ }", "A['b'] { c => ^ }", "A <| c == 1 |> { d => ^ }", "class z($a = ^) { }", "define z($a = ^) { }", "function z($a = ^) { }", "f() |$a = ^| { }", "function z { ^ }", "class z { $x = ^ }", "node z { f(^) }", "if ^ == 1 { }", "case 1 { 2: { ^ } }", "case ^ { 2: { } }", "$x = 1 ? { 2 => ^ }", "$x = ^ ? { 2 => 1 }", "\"${f(^)}\"", "$x[^]", "f() |$y| { ^ }", "$x = !^", "$x = 1 + ^", "unless ^ { }", "A[^]", "type Z = A[^]", "A produces B { c => ^ }", "site { f(^) }", "application z { f(^) }", "if $x { } else { ^ }", "$x.y(^)"}

// C17_places: duplicate keys everywhere.
func C17_places() {
	c, d := vp.BytesOf(nameTail, 1), vp.BytesOf(nameTail, 1)
	m := ""
	if c == d {
		m = "#G"
	}
	p := hashPlaces[vp.Choose(len(hashPlaces))]
	x := []string{"{ x" + c + " => 1, " + m + "'x" + d + "' => 2 }", "{ k1 => { x" + c + " => 1, " + m + "x" + d + " => 2 } }", "[{ x" + c + " => 1, j => 2, " + m + "\"x" + d + "\" => 2 }]"}[vp.Choose(3)]
	if p == "$x = { ^ => 1 }" && x[0] == '[' || p == "unless ^ { }" {
		return
	}
	expectIssues("p", strings.Replace(p, "^", x, 1))
}

// C17_implied: hashes without braces.
func C17_implied() {
	c, d := vp.BytesOf(nameTail, 1), vp.BytesOf(nameTail, 1)
	m := ""
	if c == d {
		m = "#G"
	}
	p := []string{"$x = [^]", "$x = [1, ^, 2]", "f(^)", "f(1, ^)", "$x.f(^)", "notice(^)", "type Z = A[^]", "$x = A[^]"}[vp.Choose(8)]
	x := "x" + c + " => 1, " + m + "'x" + d + "' => 2"
	expectIssues("p", strings.Replace(p, "^", x, 1))
}

// C17_separate: the same key in different hashes is no duplicate.
func C17_separate() {
	c := vp.BytesOf(nameTail, 1)
	k := "x" + c
	expectIssues("p", []string{"$a = [{ " + k + " => 1 }, { " + k + " => 1 }]", "$a = { " + k + " => { " + k + " => { " + k + " => 1 } } }", "f({ " + k + " => 1 }, { " + k + " => 1 })", "$a = { z => { " + k + " => 1 }, y => { " + k + " => 1 } }", "a { 'b': c => { " + k + " => 1 }, d => { " + k + " => 1 } }", "$a = [" + k + " => 1, 2, " + k + " => 3]",
		"$a = { " + k + " => 1 } $b = { " + k + " => 1 }"}[vp.Choose(7)])
}

// C17_parameters: names of parameters.
func C17_parameters() {
	n := 2 + vp.Choose(2)
	var ps string
	var seen []string
	for i := 0; i < n; i++ {
		c := vp.BytesOf(nameTail, 1)
		if i > 0 {
			ps += ", "
		}
		for _, o := range seen {
			if o == c {
				ps += "#H"
				break
			}
		}
		seen = append(seen, c)
		ps += []string{"$x" + c, "Integer $x" + c, "$x" + c + " = 1", "A[b] $x" + c + " = $x"}[vp.Choose(4)]
	}
	switch vp.Choose(8) {
	case 0:
		expectIssues("p", "class z("+ps+") { }")
	case 1:
		expectIssues("p", "define z("+ps+") { }")
	case 2:
		expectIssues("p", "function z("+ps+") { }")
	case 3:
		expectIssues("e", "<%| "+ps+" |%>x")
	case 4:
		expectIssues("p", "class y { class z("+ps+",) { } }")
	case 5:
		expectIssues("p", "define y($x) { $z = 1 }\nfunction z("+ps+") >> A { }")
	case 6:
		expectIssues("t", "function z("+ps+") { }")
	case 7:
		expectIssues("p", "class z("+ps+") inherits y { $x = 1 }")
	}
}

// C17_distinct: parameters of different definitions are not duplicates.
func C17_distinct() {
	c := vp.BytesOf(nameTail, 1)
	expectIssues("p", []string{"class z($x" + c + ") { } class y($x" + c + ") { }", "class z($x" + c + ") { class y($x" + c + ") { } }", "function z($x" + c + ") { f() |$x" + c + "| { } }", "function z($x" + c + " = f() |$x" + c + "| { 1 }) { }", "class z($x" + c + ", $x" + c + "y) { }"}[vp.Choose(5)])
}

// C17_defaults: defaults of a case or a selector.
func C17_defaults() {
	n := 2 + vp.Choose(3)
	kind := vp.Choose(4)
	found := false
	var s string
	for i := 0; i < n; i++ {
		v := []string{"default", "1", "'default'", "[default]", "$default", "defaul"}[vp.Choose(6)]
		m := ""
		if v == "default" {
			if found {
				m = "#F"
			}
			found = true
		}
		switch kind {
		case 0:
			s += m + v + ": { } "
		case 1:
			s += m + v + " => " + itoa(i) + ", "
		case 2:
			if i == n-1 {
				s += m + v + ": { }"
			} else {
				s += m + v + ", "
			}
		case 3:
			if i == n-1 {
				s += m + v + ": { f(1) }"
			} else if i == 0 {
				s += m + v + ": { case $y { default: { } } } "
			} else {
				s += m + v + ", "
			}
		}
	}
	if kind == 1 {
		s = "$x = $y ? { " + s + "}"
	} else {
		s = "case $y { " + s + " }"
	}
	p := []string{"^", "class z { f(1) |$x| { $w = 1\n^ } }", "function z { if $x { ^ } }"}[vp.Choose(3)]
	expectIssues("p", strings.Replace(p, "^", s, 1))
}
