package h

import (
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func blank(c byte) bool { return c == ' ' || c == '\t' }

// template text: arbitrary ASCII without the start of a tag
func eppText(n int) string {
	s := vp.Bytes(n)
	for i := 0; i < n; i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80)
		if i > 0 {
			vp.Assume(s[i-1] != '<' || s[i] != '%') // literal tags: C07_literal
			vp.Assume(i < 2 || s[i-2] != '%' || s[i-1] != '%' || s[i] != '%')
		}
	}
	return s
}

// rendered returns what a text renders: %%> is a literal %>
func rendered(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		b = append(b, s[i])
		if s[i] == '%' && at(s, i+1) == '%' && at(s, i+2) == '>' {
			i++
		}
	}
	return string(b)
}

func trimEnd(s string) string {
	for len(s) > 0 && blank(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

func trimStart(s string) string {
	for len(s) > 0 && blank(s[0]) {
		s = s[1:]
	}
	if len(s) > 1 && s[0] == '\r' && s[1] == '\n' {
		return s[2:]
	}
	if len(s) > 0 && s[0] == '\n' {
		s = s[1:]
	}
	return s
}

// eppBody parses a template and returns its parameters and its statements
func eppBody(src string) (*parser.EppExpression, []parser.Expression, []parser.Expression) {
	e, err := ParseMode("e", src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	if p, ok := e.(*parser.Program); ok {
		e = p.Body()
	}
	l, ok := e.(*parser.LambdaExpression)
	if !ok {
		vp.Fail("not a template: " + src)
	}
	x, ok := l.Body().(*parser.EppExpression)
	if !ok {
		vp.Fail("not a template: " + src)
	}
	if b, ok := x.Body().(*parser.BlockExpression); ok {
		return x, l.Parameters(), b.Statements()
	}
	return x, l.Parameters(), []parser.Expression{x.Body()}
}

// texts consumes rendered text from the statements
func texts(ss []parser.Expression, exp, src string) []parser.Expression {
	got := ""
	for len(ss) > 0 {
		r, ok := ss[0].(*parser.RenderStringExpression)
		if !ok {
			break
		}
		got += r.StringValue()
		ss = ss[1:]
	}
	vp.Assert(got == exp, "text is "+got+" in "+src)
	return ss
}

// C07_text: a template without tags renders itself.
func C07_text() {
	n := lenFor(6, 8)
	s := eppText(n)
	_, ps, ss := eppBody(s)
	vp.Assert(len(ps) == 0, "parameters")
	vp.Assert(len(texts(ss, rendered(s), s)) == 0, "statements in "+s)
}

// C07_utf8: text beyond ASCII.
func C07_utf8() {
	s := "\u00e5\u4e16" + eppText(lenFor(2, 3)) + "\U0001f600<%= $q %>\u4e16"
	_, _, ss := eppBody(s)
	ss = texts(ss, rendered(s[:len(s)-len("<%= $q %>\u4e16")]), s)
	vp.Assert(len(ss) > 0, "no tag in "+s)
	texts(ss[1:], "\u4e16", s)
}

// C07_literal: the text of a literal tag.
func C07_literal() {
	a, b, c := eppText(lenFor(2, 3)), eppText(lenFor(2, 3)), eppText(1)
	vp.Assume(at(a, len(a)-1) != '<' && at(b, len(b)-1) != '%' && at(b, 0) != '%')
	vp.Assume(c[0] != '>' && c[0] != '%')
	s := a + "<%%" + b + "%%>" + c
	_, ps, ss := eppBody(s)
	vp.Assert(len(ps) == 0, "parameters")
	vp.Assert(len(texts(ss, rendered(a)+"<%"+rendered(b)+"%>"+c, s)) == 0, "statements in "+s)
}

// C07_tag: text around one tag, and what the tag does.
func C07_tag() {
	a, b := eppText(lenFor(3, 4)), eppText(lenFor(3, 4))
	vp.Assume(at(a, len(a)-1) != '<' || at(a, len(a)-2) != '<')
	open, end := vp.Choose(3), vp.Choose(2)
	s := a + []string{"<%", "<%-", "<%="}[open] + " $q " + []string{"%>", "-%>"}[end] + b
	ra, rb := rendered(a), rendered(b)
	if open == 1 {
		ra = rendered(trimEnd(a))
	}
	if end == 1 {
		rb = rendered(trimStart(b))
	}
	_, ps, ss := eppBody(s)
	vp.Assert(len(ps) == 0, "parameters")
	ss = texts(ss, ra, s)
	if len(ss) == 0 {
		vp.Fail("no tag in " + s)
	}
	e := ss[0]
	if open == 2 {
		r, ok := e.(*parser.RenderExpression)
		if !ok {
			vp.Fail("not rendered in " + s)
		}
		e = r.Expr()
	}
	isVariable(e, "q", s)
	vp.Assert(len(texts(ss[1:], rb, s)) == 0, "statements in "+s)
}

// C07_between: text between two tags.
func C07_between() {
	b := eppText(lenFor(4, 5))
	vp.Assume(at(b, len(b)-1) != '<')
	end, open := vp.Choose(2), vp.Choose(3)
	s := "<%= $q " + []string{"%>", "-%>"}[end] + b + []string{"<%", "<%-", "<%="}[open] + " $r %>"
	rb := b
	if end == 1 {
		rb = trimStart(rb)
	}
	if open == 1 {
		rb = trimEnd(rb)
	}
	_, _, ss := eppBody(s)
	if len(ss) < 2 {
		vp.Fail("statements lost in " + s)
	}
	r, ok := ss[0].(*parser.RenderExpression)
	if !ok {
		vp.Fail("not rendered in " + s)
	}
	isVariable(r.Expr(), "q", s)
	ss = texts(ss[1:], rendered(rb), s)
	if len(ss) != 1 {
		vp.Fail("statements in " + s)
	}
	e := ss[0]
	if open == 2 {
		r, ok := e.(*parser.RenderExpression)
		if !ok {
			vp.Fail("not rendered in " + s)
		}
		e = r.Expr()
	}
	isVariable(e, "r", s)
}

// C07_comment: a comment disappears, whatever it contains.
func C07_comment() {
	a, b := eppText(lenFor(1, 2)), eppText(lenFor(1, 2))
	vp.Assume(at(a, len(a)-1) != '<' && at(b, 0) != '%')
	c := vp.Bytes(lenFor(3, 4))
	for i := 0; i < len(c); i++ {
		vp.Assume(c[i] > 0 && c[i] < 0x80)
		vp.Assume(c[i] != '%' || i+1 < len(c) && c[i+1] != '>' && c[i+1] != '%')
	}
	s := a + "<%#" + c + "%>" + b
	_, ps, ss := eppBody(s)
	vp.Assert(len(ps) == 0, "parameters")
	exp := rendered(a) + rendered(b)
	vp.Assert(len(texts(ss, exp, s)) == 0, "statements in "+s)
}

// C07_control: text under control of code.
func C07_control() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	a, b := eppText(n), eppText(n)
	vp.Assume(a[n-1] != '<' && b[n-1] != '<')
	x := []string{"", "-"}
	o, e := x[vp.Choose(2)], x[vp.Choose(2)]
	ra, rb := a, b
	if e == "-" {
		ra, rb = trimStart(ra), trimStart(rb)
	}
	if o == "-" {
		ra, rb = trimEnd(ra), trimEnd(rb)
	}
	ra, rb = rendered(ra), rendered(rb)
	block := func(x parser.Expression, exp, src string) {
		b, ok := x.(*parser.BlockExpression)
		if ok {
			vp.Assert(len(texts(b.Statements(), exp, src)) == 0, "statements in "+src)
			return
		}
		vp.Assert(len(texts([]parser.Expression{x}, exp, src)) == 0, "statements in "+src)
	}
	switch vp.Choose(2) {
	case 0:
		s := "<% if $q { " + e + "%>" + a + "<%" + o + " } else { " + e + "%>" + b + "<%" + o + " } %>"
		_, _, ss := eppBody(s)
		if len(ss) != 1 {
			vp.Fail("statements in " + s)
		}
		f, ok := ss[0].(*parser.IfExpression)
		if !ok {
			vp.Fail("not an if in " + s)
		}
		isVariable(f.Test(), "q", s)
		block(f.Then(), ra, s)
		block(f.Else(), rb, s)
	default:
		s := "<% $q.each |$r| { " + e + "%>" + a + "<%" + o + " } " + e + "%>" + b
		if e == "" {
			rb = rendered(b)
		} else {
			rb = rendered(trimStart(b))
		}
		_, _, ss := eppBody(s)
		if len(ss) == 0 {
			vp.Fail("statements in " + s)
		}
		c, ok := ss[0].(*parser.CallMethodExpression)
		if !ok {
			vp.Fail("not a call in " + s)
		}
		block(c.Lambda().(*parser.LambdaExpression).Body(), ra, s)
		vp.Assert(len(texts(ss[1:], rb, s)) == 0, "statements in "+s)
	}
}

// C07_code: code of a tag ends at the closing tag, not within literals.
func C07_code() {
	c := vp.Bytes(lenFor(2, 3))
	for i := 0; i < len(c); i++ {
		vp.Assume(c[i] > 0 && c[i] < 0x80 && c[i] != '\'' && c[i] != '\\')
	}
	v := []string{"", "%>", "<%", "-%>", "<%=", "%%>", "<%%"}[vp.Choose(7)]
	l := []string{" ", "\n", " # %\n", " /* %> */ "}[vp.Choose(4)]
	s := "x<%=" + l + "'" + c + v + "'" + l + "%>y"
	_, _, ss := eppBody(s)
	ss = texts(ss, "x", s)
	if len(ss) != 2 {
		vp.Fail("statements in " + s)
	}
	r, ok := ss[0].(*parser.RenderExpression)
	if !ok {
		vp.Fail("not rendered in " + s)
	}
	isString(r.Expr(), c+v, s)
	texts(ss[1:], "y", s)
}

// C07_params: parameters of a template are first, and only there.
func C07_params() {
	n := vp.Choose(4)
	names := []string{"p", "q", "r"}
	ps := ""
	var kinds [3]int
	for i := 0; i < n; i++ {
		if i > 0 {
			ps += ", "
		}
		kinds[i] = vp.Choose(3)
		if kinds[i] == 2 {
			ps += "String "
		}
		ps += "$" + names[i]
		if kinds[i] == 1 {
			ps += " = 7"
		}
	}
	before := eppText(vp.Choose(3))
	vp.Assume(at(before, len(before)-1) != '<')
	after := eppText(vp.Choose(3))
	trim := vp.Bool()
	open := "<%"
	if trim {
		open = "<%-"
		before2 := trimEnd(before)
		if before2 != "" {
			rejected("e", before+open+" |"+ps+"| %>"+after)
			return
		}
	} else if before != "" {
		rejected("e", before+open+" |"+ps+"| %>"+after)
		return
	}
	end := []string{"%>", "-%>"}[vp.Choose(2)]
	s := before + open + " |" + ps + "| " + end + after
	x, params, ss := eppBody(s)
	vp.Assert(x.ParametersSpecified(), "parameters are not specified in "+s)
	vp.Assert(len(params) == n, "number of parameters in "+s)
	for i := 0; i < n; i++ {
		p := params[i].(*parser.Parameter)
		vp.Assert(p.Name() == names[i], "parameter name in "+s)
		vp.Assert((p.Value() != nil) == (kinds[i] == 1) && (p.Type() != nil) == (kinds[i] == 2), "parameter in "+s)
	}
	if end == "-%>" {
		after = trimStart(after)
	}
	vp.Assert(len(texts(ss, rendered(after), s)) == 0, "statements in "+s)
	y, _, _ := eppBody("x" + s[len(s)-len(end):] + "y")
	vp.Assert(!y.ParametersSpecified(), "parameters")
}

// C07_statements: all statements of a tag are kept, only the first one of a
// rendering tag is rendered.
func C07_statements() {
	n := 1 + vp.Choose(3)
	render := vp.Bool()
	sep := []string{"; ", "\n", ";\n"}[vp.Choose(3)]
	s := "x<%"
	if render {
		s += "="
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += " $" + "pqr"[i:i+1]
	}
	s += " %>y"
	_, _, ss := eppBody(s)
	ss = texts(ss, "x", s)
	if len(ss) != n+1 {
		vp.Fail("number of statements in " + s)
	}
	for i := 0; i < n; i++ {
		e := ss[i]
		if render && i == 0 {
			r, ok := e.(*parser.RenderExpression)
			if !ok {
				vp.Fail("not rendered in " + s)
			}
			e = r.Expr()
		}
		isVariable(e, "pqr"[i:i+1], s)
	}
	texts(ss[n:], "y", s)
}

// C07_fragments: code before and after a text are statements of their own, whatever the text is.
func C07_fragments() {
	before := []string{"$q", "7", "notice", "return", "include q", "f(7)", "$q.f", "$q = 7", "if $q { 7 }", "fail 'q'", "Q['q']", "[7]", "break; return", ""}
	after := []string{"(7)", "-7", "- 7", "*$q", "{q => 7}", "{q => 7}.f", "[7]", "[7].f", "!$q", "/q/", "'q'", "$q = 7", "q", "notice $q", "@q { 'r': }", "Q { r => 7 }", "f (7)", "if (7) { 1 }", "default: 7", "= 7", "and $q", ", $q", "|$q| { 7 }", "? 7", ". f", "}", ""}
	b, a := before[vp.Choose(len(before))], after[vp.Choose(len(after))]
	n := vp.Choose(2)
	t := eppText(2)
	vp.Assume(t[1] != '<')
	end, open := vp.Choose(2), vp.Choose(2)
	if n == 0 {
		t = eppText(1) + t
		vp.Assume(t[0] != '%' && t[0] != '<')
	}
	r := t
	src := []string{"%>", "-%>"}[end] + t + []string{"<% ", "<%- "}[open] + a + " %>"
	if n == 0 {
		if b != "" {
			return
		}
		src = src[2+end:]
	} else {
		src = "<% " + b + " " + src
		if end == 1 {
			r = trimStart(r)
		}
	}
	if open == 1 {
		r = trimEnd(r)
	}
	if r == "" {
		return // code of adjacent tags
	}
	var want []string
	add := func(code string) bool {
		e, err := ParseMode("p", code)
		if err != nil {
			return false
		}
		for _, x := range statementsOf(e) {
			if _, ok := x.(*parser.Nop); !ok {
				want = append(want, x.ToPN().String())
			}
		}
		return true
	}
	ok := true
	if n == 1 {
		ok = add(b)
	}
	want = append(want, "")
	if !ok || !add(a) {
		rejected("e", src)
		return
	}
	_, _, ss := eppBody(src)
	i := 0
	for _, w := range want {
		if w == "" {
			ss = append(ss[:i:i], texts(ss[i:], rendered(r), src)...)
			continue
		}
		if i >= len(ss) {
			vp.Fail("statement lost in " + src)
		}
		vp.Assert(ss[i].ToPN().String() == w, ss[i].ToPN().String()+" instead of "+w+" in "+src)
		i++
	}
	vp.Assert(i == len(ss), "additional statement in "+src)
}
