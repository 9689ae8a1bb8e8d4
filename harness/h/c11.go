package h

import (
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func checkErr(src, file string, err error) {
	r, ok := err.(issue.Reported)
	if !ok {
		return
	}
	l := r.Location()
	if l == nil {
		vp.Fail("no location: " + src)
	}
	vp.Assert(l.File() == file, "wrong file")
	lines := strings.Split(src, "\n")
	ln := l.Line()
	if ln < 1 || ln > len(lines) {
		vp.Fail("line outside source: " + src)
	}
	if p := l.Pos(); p < 1 || p > utf8.RuneCountInString(lines[ln-1])+1 {
		vp.Fail("position outside line: " + src)
	}
	m := r.Error()
	vp.Assert(!strings.Contains(m, "MISSING") && !strings.Contains(m, "%!"), "malformed message "+m)
}

func parseErr(mode, src string) error {
	_, err := parser.CreateParser(optionsOf(mode)...).Parse("file", src, mode == "s")
	return err
}

// C11_bytes: errors in arbitrary sources.
func C11_bytes() {
	mode := []string{"p", "e"}[vp.Choose(2)]
	s := vp.Bytes(lenFor(3, 4))
	if err := parseErr(mode, s); err != nil {
		vp.Cover("error")
		checkErr(s, "file", err)
	}
}

// C11_cut: errors in truncated constructs.
func C11_cut() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := vp.Choose(len(t.src) + 1)
	s := t.src[:at] + vp.BytesOf("\n)\"'^$({[|>=,@/", vp.Choose(2))
	if vp.Thorough() {
		s += vp.Bytes(1)
	}
	if err := parseErr(t.mode, s); err != nil {
		vp.Cover("error")
		checkErr(s, "file", err)
	}
}

// C11_stray: an illegal character is reported where it is.
func C11_stray() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := gapOf(t)
	if hasByte(t.src, '#') {
		return // gaps in comments
	}
	for i := at - 1; i >= 0 && t.src[i] <= '|'; i-- {
		if t.src[i] == '|' {
			return // the character that follows tells if this starts or ends parameters
		}
		if t.src[i] > ' ' {
			break
		}
	}
	l := ""
	if k := vp.Choose(layoutKinds() + 1); k > 0 {
		l = layout(k - 1)
	}
	s := t.src[:at] + l + "^" + t.src[at:]
	err := parseErr(t.mode, s)
	if err == nil {
		vp.Fail("accepted")
	}
	r, ok := err.(issue.Reported)
	if !ok {
		vp.Fail("no issue: " + err.Error())
	}
	at += len(l)
	if r.Location().Line() != lineOf(s, at) || r.Location().Pos() != posOf(s, at) {
		vp.Fail("wrong location: " + err.Error() + " in " + s)
	}
}

// C11_shift: text before a defect moves the reported location, nothing else.
func C11_shift() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "e" {
		return
	}
	at := vp.Choose(len(t.src) + 1)
	s := t.src[:at] + string([]byte{vp.ByteOf(")]}\"^,")})
	err := parseErr(t.mode, s)
	if err == nil {
		return
	}
	l := vp.BytesOf(" \n", 2)
	err2 := parseErr(t.mode, l+s)
	if err2 == nil {
		vp.Fail("accepted " + l + s)
	}
	a, ok1 := err.(issue.Reported)
	b, ok2 := err2.(issue.Reported)
	if ok1 != ok2 || ok1 && (a.Code() != b.Code() || b.Location().Line() != a.Location().Line()+lineOf(l, 2)-1) {
		vp.Fail("not the same error: " + err.Error() + " and " + err2.Error() + " in " + s)
	}
	if ok1 {
		p := a.Location().Pos()
		if a.Location().Line() == 1 {
			p += posOf(l, 2) - 1
		}
		vp.Assert(b.Location().Pos() == p, "not the same position: "+err.Error()+" and "+err2.Error()+" in "+s)
	}
}

// C11_grammar: an illegal character in combinations of constructs is reported
// where it is, after text with characters of several bytes.
func C11_grammar() {
	g := someGram(1, 2)
	src, _ := g.source()
	if len(g.gaps) == 0 {
		return
	}
	at := g.gaps[vp.Choose(len(g.gaps))]
	for i := at - 1; i >= 0 && src[i] <= '|'; i-- {
		if src[i] == '|' {
			return // the character that follows tells if this starts or ends parameters
		}
		if src[i] > ' ' {
			break
		}
	}
	l := []string{"", "/*\u00e5\u4e16*/", "#\u00e5\n/*\U0001f600*/ "}[vp.Choose(3)]
	s := src[:at] + l + "^" + src[at:]
	wantErrAt(g.mode, s, at+len(l))
}

// wantErrAt asserts that the error of a source is at the offset.
func wantErrAt(mode, s string, at int) {
	err := parseErr(mode, s)
	if err == nil {
		vp.Fail("accepted " + s)
	}
	r, ok := err.(issue.Reported)
	if !ok {
		vp.Fail("no issue: " + err.Error())
	}
	if r.Location().Line() != lineOf(s, at) || r.Location().Pos() != posOf(s, at) {
		vp.Fail("wrong location: " + err.Error() + " in " + s)
	}
}

// C11_comma: a comma between statements is reported directly after the first
// one, or at the comma.
func C11_comma() {
	outer := strings.Split([]string{"~", "class a { ~ }", "if $a { ~ }", "<% ~ %>"}[vp.Choose(4)], "~")
	first := []string{"", "$a ", "include a\n", "include(a)\n", "$a = 1; ", "'\u00e5' "}[vp.Choose(6)]
	l := []string{"$q", "f(1)", "'x'", "$y.foo", "Foo['x']", "'\u4e16\u00e5'", "f('\u00e5')", "$y['\u00e5\U0001f600'].foo", "f(\"\u00e5\n\u00e5\")", "'x\ny'", "[1,\n2]"}[vp.Choose(11)]
	ws := []string{"", " ", "\n", "/*\u00e5*/"}[vp.Choose(4)]
	r := []string{"zz", "$zz", "'zz'", "f(2)", "[zz]", "'\u00e5'"}[vp.Choose(6)]
	mode := "p"
	if outer[0] == "<% " {
		mode = "e"
	}
	at := outer[0] + first + l
	s := at + ws + ", " + r + outer[1]
	err := parseErr(mode, s)
	if err == nil {
		vp.Fail("accepted " + s)
	}
	loc := err.(issue.Reported).Location()
	// the end of a statement may be estimated
	for i := len(at); i <= len(at+ws)+1; i++ {
		if loc.Line() == lineOf(s, i) && loc.Pos() == posOf(s, i) {
			return
		}
	}
	vp.Fail("wrong location: " + err.Error() + " in " + s)
}
