package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

// what may be anywhere in the source, as far as the parser is concerned
var anyParts = []string{"7", "-1", "1.5", "'a'", "\"a\"", "\"a${b}\"", "\"${b}\"", "a", "a::b", "A", "A::B", "$a", "$7", "$a::b", "true", "undef", "default", "/a/", "attr", "[]", "[7]", "[/a/]", "[/a/, 'b']", "[/a/, 'b', 'c']", "['a', 'b']", "{}", "{a => 1}", "{a => 1, 'a' => 2}", "{[1] => 2, {1 => 2} => 3}", "()", "(7)", "(a)", "A[7]", "a[7]", "A[B][7]",
	"$a[7, 8]", "A[]", "$a.b", "A.b", "$a.b(7)", "f()", "f(7) |$x| { }", "A(7)", "!$a", "-$a", "*$a", "$a + 7", "$a = 7", "$a += 7", "[$a, $b] = [1, 2]", "$a and b", "$a == 7", "$a =~ /a/", "$a in [7]", "$a ? { 7 => 8 }", "$a ? { default => 8 }", "if $a { }", "unless $a { 7 }", "case $a { 7: { } }", "case $a { }", "class b { }", "define b { 7 }", "function b { }", "node b { }", "A <| |>", "A <<| a == 7 |>>",
	"A['b'] -> C['d']", "b { 'c': }", "B { c => 7 }", "B['c'] { d => 7 }", "@(E)\n7\n| E\n", "Integer", "Runtime", "Runtime['a', [/b/]]", "Application", "|$x| { }"}

var anySlots = []string{"^", "^\nf(7)", "$x = ^", "^ = 7", "^ += 7", "[^, $x] = 7", "type Zz = ^", "type Runtime['go', ^] = Z", "type Runtime['go', [/a/, ^]] = [/b/, 'c']", "type Runtime['go', [^, 'a']] = Z", "type Runtime['go', [/a/, 'b']] = ^", "type Runtime['go', 'x'] = ^", "type Runtime[^] = Z", "type Z[^] = Y", "function z >> ^ { }", "f() |$x| >> ^ { }", "f(^)", "^(7)", "(^)(7)", "^.x", "$x.^", "$x.(^)", "(^).x(7)", "f ^", "notice ^, 7", "$x[^]", "^[7]", "(^)[7]",
	"^ { 'x': y => 7 }", "z { ^: y => 7 }", "z { 'x': y => ^ }", "z { 'x': * => ^ }", "^ { y => 7 }", "Z[^] { y => 7 }", "@^ { 'x': }", "(^) { 'x': }", "^ <| |>", "Z <| ^ |>", "Z <<| x == ^ |>>", "Z <| ^ == x and ^ |>", "^ produces Y { }", "Z[^] produces Y { }", "Z produces ^ { }", "Z produces Y { x => ^ }", "class z($x = ^) { }", "class z(^ $x) { }", "class z inherits ^ { }", "class ^ { }", "class z { ^ }", "define z($x = ^) { ^ }", "define ^($x) { }", "function z($x = ^) { ^ }", "function ^ { }", "node ^ { }", "node z { ^ }", "node z inherits ^ { }",
	"if ^ { }", "if $x { ^ } else { ^ }", "if $x { } elsif ^ { }", "unless ^ { } else { ^ }", "case ^ { 7: { } }", "case $x { ^: { ^ } }", "case $x { ^, default: { } }", "^ ? { 7 => 8 }", "(^) ? { 7 => 8 }", "$x ? { ^ => ^ }", "$x ? { default => ^, ^ => 7 }", "!^", "-(^)", "*^", "^ + 7", "7 + ^", "^ -> ^", "^ ~> Z['x']", "[^]", "{^ => 7}", "{x => ^}", "{^ => 7, ^ => 8}", "[7, *^]", "\"x${^}y\"", "\"${^}\"", "@(\"E\")\n${^}\n| E\n", "f() |$x = ^| { ^ }", "f() |^ $x| { }", "f() |*$x, $y = ^| { 7 }", "site { ^ }", "application z { ^ }", "return ^", "(^)", "7 in ^", "^ =~ ^", "^ == ^"}

// slotted returns a source that has something in a place, legal there or not.
func slotted() string {
	x := anyParts[vp.Choose(len(anyParts))]
	src := anySlots[vp.Choose(len(anySlots))]
	if strings.Count(src, "^") == 2 && !vp.Thorough() {
		src = strings.Replace(src, "^", []string{"7", "A[7]", "$a = 7", "default"}[vp.Choose(4)], 1)
	}
	for strings.Contains(src, "^") {
		src = strings.Replace(src, "^", x, 1)
		if vp.Thorough() {
			x = anyParts[vp.Choose(len(anyParts))]
		}
	}
	return src
}

// slottedIn returns such a source, its mode, and its tree, nil if it is in error.
func slottedIn() (mode, src string, e parser.Expression, err error) {
	mode, src = "p", slotted()
	if vp.Bool() {
		mode, src = "e", "\u00e5<%# \u00e5 %>\n<% "+src+" -%>\n\u00e5"
	}
	e, err = parser.CreateParser(optionsOf(mode)...).Parse("file", src, false)
	return
}

// C01_slots: whatever in whatever place.
func C01_slots() {
	src := slotted()
	single := vp.Bool()
	total(parser.CreateParser(), src, single)
}

// C02_slots: what is in a place is in the tree, or an error.
func C02_slots() {
	m := markers[vp.Choose(len(markers))]
	checkMarker("p", strings.Replace(anySlots[vp.Choose(len(anySlots))], "^", m, -1), false)
}

// C03_slots: whatever in whatever place is parsed the same again.
func C03_slots() {
	src := slotted()
	if vp.Thorough() {
		reuse("p", src, false)
		return
	}
	p := parser.CreateParser()
	want := outcome(p.Parse("", src, false))
	vp.Assert(outcome(p.Parse("", src, false)) == want, "the second time it differs for "+src)
}

// C10_slots: positions of whatever in whatever place.
func C10_slots() {
	if mode, src, e, err := slottedIn(); err == nil {
		checkSpans(mode, src, "file", e)
	}
}

// C11_slots: places of errors.
func C11_slots() {
	if _, src, _, err := slottedIn(); err != nil {
		checkErr(src, "file", err)
	}
}

// C13_slots: the notation can be read.
func C13_slots() {
	src := slotted()
	if e, err := ParseMode("p", src); err == nil && !strings.Contains(src, "1.5") {
		s := e.ToPN().String()
		m := readNotation(s)
		vp.Assert(eqData(e.ToPN().ToData(), dataOf(&m)), "text and data differ: "+s)
	}
}

// C14_slots: traversal of whatever in whatever place.
func C14_slots() {
	if _, _, e, err := slottedIn(); err == nil {
		checkVisits(e)
	}
}

// C15_slots: definitions in whatever place.
func C15_slots() {
	if _, _, e, err := slottedIn(); err == nil {
		checkDefs(e)
	}
}

// C16_slots: severities of whatever in whatever place.
func C16_slots() {
	if e, err := ParseMode("p", slotted()); err == nil {
		checkLevels(e)
	}
}

// C19_slots: every node of whatever in whatever place.
func C19_slots() {
	src := slotted()
	if e, err := ParseMode("p", src); err == nil {
		checkLiterals(e, src, false)
	}
}

// C27_slots: messages about whatever in whatever place.
func C27_slots() {
	mode, src, e, err := slottedIn()
	if err != nil {
		checkNames(mode, src, err)
	} else if mode == "p" {
		checkMessages(src, e, validate(mode, e, validator.StrictError))
	}
}

// C28_slots: accessors of whatever in whatever place.
func C28_slots() {
	if e, err := ParseMode("p", slotted()); err == nil {
		checkAccessors(e)
	}
}

// C09_slots: layout around whatever in whatever place.
func C09_slots() {
	x := anyParts[vp.Choose(len(anyParts))]
	s := anySlots[vp.Choose(len(anySlots))]
	l := []string{"\n", "/*\u00e5 ) */", "# '\n"}[vp.Choose(3)]
	t := strings.Replace(strings.Replace(s, " ^", " "+l+"^", -1), "^ ", "^"+l+" ", -1)
	if s == t || x[0] == '(' && l[0] != '/' {
		return // or a line end before a parenthesis, which matters
	}
	want := outcome(parser.CreateParser().Parse("", strings.Replace(s, "^", x, -1), false))
	got := outcome(parser.CreateParser().Parse("", strings.Replace(t, "^", x, -1), false))
	if strings.HasPrefix(want, "error") && strings.HasPrefix(got, "error") {
		return // at another place
	}
	vp.Assert(got == want, "differs with layout: "+strings.Replace(t, "^", x, -1))
}
