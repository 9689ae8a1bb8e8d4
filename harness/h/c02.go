package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func lenFor(quick, thorough int) int {
	if vp.Thorough() {
		return vp.Choose(thorough + 1)
	}
	return vp.Choose(quick + 1)
}

func mustReject(p parser.ExpressionParser, src string, single bool, why string) {
	e, err := p.Parse("", src, single)
	if err == nil {
		vp.Fail(why + " accepted as " + e.ToPN().String())
	}
}

// C02_tail: whatever precedes a stray token, the token is not ignored.
func C02_tail() {
	s := vp.Bytes(lenFor(3, 5))
	single := vp.Bool()
	mustReject(parser.CreateParser(), s+"\n^", single, "illegal character at end")
}

// C02_tailModes: as C02_tail, in the other modes.
func C02_tailModes() {
	s := vp.Bytes(lenFor(2, 4))
	mode := []string{"p", "w", "t", "b", "s"}[vp.Choose(5)]
	k := vp.Choose(3)
	tail, open := []string{"\n)", "\n]", "\n}"}[k], "([{"[k]
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != open)
	}
	mustReject(parser.CreateParser(optionsOf(mode)...), s+tail, mode == "s", "stray token at end")
}

// C02_statement: a statement after arbitrary text is part of the tree.
func C02_statement() {
	s := vp.Bytes(lenFor(3, 4))
	e, err := parser.CreateParser().Parse("", s+"\n$zz = 1", false)
	if err == nil {
		vp.Cover("accepted")
		pn := e.ToPN().String()
		vp.Assert(strings.Contains(pn, `(var "zz")`), "statement lost: "+pn)
	}
}

// C02_first: a statement before arbitrary text is part of the tree.
func C02_first() {
	s := vp.Bytes(lenFor(3, 4))
	e, err := parser.CreateParser().Parse("", "$zz = 1\n"+s, false)
	if err == nil {
		vp.Cover("accepted")
		pn := e.ToPN().String()
		vp.Assert(strings.Contains(pn, `(var "zz")`), "statement lost: "+pn)
	}
}

// C02_epp: text that is not a tag is retained, and code after it is seen.
func C02_epp() {
	s := vp.Bytes(lenFor(3, 5))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '%')
	}
	vp.Assume(len(s) == 0 || s[len(s)-1] != '<')
	mustReject(parser.CreateParser(parser.EppMode), s+"<% ) %>", false, "stray parenthesis in tag")
}

// C02_eppTail: an unterminated tag is never accepted.
func C02_eppTail() {
	s := vp.Bytes(lenFor(2, 4))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '%' && s[i] != '<')
	}
	open := []string{"<%", "<%-", "<%=", "<%#", "<%|"}[vp.Choose(5)]
	tail := vp.Bytes(lenFor(1, 2))
	vp.Assume(len(tail) == 0 || tail[0] != '%') // literal tag
	for i := 0; i < len(tail); i++ {
		vp.Assume(tail[i] != '%')
	}
	mustReject(parser.CreateParser(parser.EppMode), s+open+tail, false, "unterminated tag")
}

// C02_utf8: bytes that are no text are never accepted, wherever they are.
func C02_utf8() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := vp.Choose(len(t.src) + 1)
	b := vp.Byte()
	vp.Assume(b == 0 || b >= 0x80) // not valid between two ASCII characters
	mustReject(parser.CreateParser(optionsOf(t.mode)...), t.src[:at]+string([]byte{b})+t.src[at:], t.mode == "s", "illegal byte")
}

// C02_stray: an illegal character or an extra bracket between two tokens is
// never skipped.
func C02_stray() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if len(t.gaps) == 0 {
		return
	}
	at := t.gaps[vp.Choose(len(t.gaps))]
	if hasByte(t.src, '#') {
		return // gaps in comments
	}
	b := vp.ByteOf(")^\\\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f\x80\xbf\xc0\xff")
	mustReject(parser.CreateParser(optionsOf(t.mode)...), t.src[:at]+string([]byte{b})+t.src[at:], t.mode == "s", "stray character")
}

// C02_comma: the comma between two statements that aren't arguments of a
// statement call, and what follows it, is not ignored.
func C02_comma() {
	outer := strings.Split([]string{"~", "class a { ~ }", "if $a { ~ }", "$a.each |$x| { ~ }", "case $a { 1: { ~ } }", "define a { ~ }",
		"unless $a { ~ } else { 1 }", "function a { ~ }", "node a { ~ }", "plan a { ~ }", "<% ~ %>"}[vp.Choose(11)], "~")
	first := []string{"", "$a ", "include a\n", "include(a)\n", "$a = 1; ", "include a, b;"}[vp.Choose(6)]
	l := []string{"$q", "f(1)", "'x'", "$y.foo", "1 + 2", "Foo['x']"}[vp.Choose(6)]
	r := []string{"zz", "$zz", "'zz'", "f(2)", "[zz]"}[vp.Choose(5)]
	rest := []string{"", "\ninclude foo", "\n$x = 1", "\ninclude(foo)", "\nfoo", "\ninclude a, b\ninclude c", ",", "\nfail 'x', 'y'"}[vp.Choose(8)]
	ws := vp.Bytes(vp.Choose(2))
	for i := 0; i < len(ws); i++ {
		vp.Assume(ws[i] == ' ' || ws[i] == '\n' || ws[i] == '\t' || ws[i] == '\r')
	}
	var o []parser.Option
	if outer[0] == "<% " {
		o = append(o, parser.EppMode)
	} else if outer[0] == "plan a { " {
		o = append(o, parser.TasksEnabled)
	}
	mustReject(parser.CreateParser(o...), outer[0]+first+l+ws+","+ws+r+rest+outer[1], false, "comma between statements")
}

// C02_arguments: all arguments of a statement call are in the tree.
func C02_arguments() {
	outer := strings.Split([]string{"~", "class a { ~ }", "if $a { ~ }", "$a.each |$x| { ~ }", "<% ~ %>"}[vp.Choose(5)], "~")
	name := []string{"include", "require", "contain", "tag", "fail", "notice", "realize", "err"}[vp.Choose(8)]
	first := []string{"", "$a ", "include a\n", "include(a)\n", "include a, b;"}[vp.Choose(5)]
	n := 1 + vp.Choose(3)
	rest := []string{"", "\ninclude foo", "\n$x = 1", "\ninclude(foo)", "\nfoo", "\ninclude a, b\ninclude c"}[vp.Choose(6)]
	src := outer[0] + first + name + " "
	args := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			src += ", "
			args += " "
		}
		a := []string{"$q", "'q'", "[q]"}[vp.Choose(3)]
		src += a
		args += map[string]string{"$q": `(var "q")`, "'q'": `"q"`, "[q]": `(array (qn "q"))`}[a]
	}
	var o []parser.Option
	if outer[0] == "<% " {
		o = append(o, parser.EppMode)
	}
	e, err := parser.CreateParser(o...).Parse("", src+rest+outer[1], false)
	vp.Assert(err == nil, "rejected")
	if err == nil {
		want := `(invoke {:functor (qn "` + name + `") :args [` + args + `]})`
		vp.Assert(strings.Contains(e.ToPN().String(), want), "arguments lost: "+e.ToPN().String())
	}
}

var markers = []string{"mark9", "mark9 ", ", mark9", ", mark9,", ", mark9 => 1", "; mark9", "; mark9;", "[mark9]", "(mark9)", "(mark9) ", "{ mark9 }", "=> mark9", "= mark9 ", "$mark9", "$mark9, ", ".mark9", ": mark9", "|$mark9|", "+ mark9 ", "? mark9 ", "mark9:", "Mark9", "'mark9'", "\"mark9\"", "-> mark9 ", "mark9 { }", "include mark9\n", "inherits mark9 ", ">> Mark9 ", "if mark9 { }", "mark9 => 1, ", "@@mark9 { a: }", "*mark9", "/mark9/", "::mark9", "::Mark9", "and mark9 ", "default mark9", "%>mark9<%"}

func checkMarker(mode, src string, single bool) {
	e, err := parser.CreateParser(optionsOf(mode)...).Parse("", src, single)
	if err != nil {
		vp.Cover("rejected")
		return
	}
	s := e.ToPN().String()
	if p, ok := e.(*parser.Program); ok {
		s = p.ToPN().String()
	}
	vp.Assert(strings.Contains(s, "ark9"), "what was inserted is lost in "+src+": "+s)
}

// C02_markers: what is inserted in a source is in the tree, or an error.
func C02_markers() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := gapOf(t)
	checkMarker(t.mode, t.src[:at]+markers[vp.Choose(len(markers))]+t.src[at:], t.mode == "s")
}

// C02_grammar: likewise for combinations of constructs.
func C02_grammar() {
	g := someGram(1, 2)
	src, _ := g.source()
	if len(g.gaps) == 0 {
		return
	}
	at := g.gaps[vp.Choose(len(g.gaps))]
	checkMarker(g.mode, src[:at]+markers[vp.Choose(len(markers))]+src[at:], false)
}
