package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

// Places for the statements of a template. The result must not depend on them.
var stmtPlaces = []struct{ mode, pre, post string }{
	{"p", "$z = 1; ", ""},
	{"p", "#c\n ", "\n"},
	{"p", "if $z { ", "\n}"},
	{"p", "if $z { 1 } else { ", "\n}"},
	{"p", "unless $z { ", "\n}"},
	{"p", "case $z { 1: { ", "\n} }"},
	{"p", "$z.c |$y| { ", "\n}"},
	{"p", "c() |$y| { ", "\n}"},
	{"p", "function z { ", "\n}"},
	{"p", "node z { ", "\n}"},
	{"p", "define z { ", "\n}"},
	{"p", "$z = [1, if $z { ", "\n}]"},
	{"p", "z { 'c': d => f() |$y| {\n", "\n} }"},
	{"t", "", ""},
	{"t", "plan zz { ", "\n}"},
	{"w", "", ""},
	{"b", "", ""},
	{"e", "<% ", "\n%>"},
	{"e", "@<% ", "\n-%>@"},
	{"e", "<%= $z %>@<%- if $z { -%>@<% ", "\n%>@<% } %>"},
	{"p", "\"@${if $z { ", "\n}}@\""},
	{"p", "\"@\\n@${if $z { ", "\n}}@\""},
	{"p", "$z = @(\"ZZ\")\n@ ${if $z { ", "\n}}@\n | ZZ\n"},
}

// someStatements chooses a template that is a program and a place for it. The
// result is the mode, the source, the offset of the template in it, and the
// template.
func someStatements(text int) (mode, src string, off int, t *tmpl) {
	t = &tmpls[vp.Choose(len(tmpls))]
	if t.mode != "p" {
		vp.Assume(false)
	}
	p := &stmtPlaces[vp.Choose(len(stmtPlaces))]
	if strings.HasPrefix(p.pre, "$z = @") && strings.Contains(t.src, "@(") {
		vp.Assume(false)
	}
	if strings.HasPrefix(p.pre, "plan") && (strings.HasPrefix(t.src, "class aq") || strings.Contains(t.src, "Aqa consumes") || strings.Contains(t.src, "Aqa produces")) {
		vp.Assume(false) // gets the name of the plan
	}
	pre := textsIn(p.mode, p.pre, text)
	return p.mode, pre + t.src + textsIn(p.mode, p.post, text/2), len(pre), t
}

// textsIn replaces each @ of a template or a string that is text by arbitrary text
func textsIn(mode, s string, max int) string {
	n := strings.Index(s, "@")
	if n < 0 || strings.HasPrefix(s[n:], "@(") && strings.Count(s, "@") == 1 {
		return s
	}
	if strings.HasPrefix(s[n:], "@(") {
		return s[:n+1] + textsIn(mode, s[n+1:], max/2)
	}
	x := vp.Bytes(lenFor(max, max))
	for i := 0; i < len(x); i++ {
		c := x[i]
		vp.Assume(c > 0 && c < 0x80 && c != '<' && c != '%' && c != '$' && c != '\\' && c != '"')
		vp.Assume(mode == "e" || c != '\n')
	}
	return s[:n] + x + textsIn(mode, s[n+1:], max/2)
}

// nodesWithin returns the nodes that start in the given range of the source but whose parents do not, without blocks
func nodesWithin(e parser.Expression, from, to int) (r []parser.Expression) {
	var visit func(x parser.Expression)
	visit = func(x parser.Expression) {
		if _, ok := x.(*parser.BlockExpression); !ok && x.ByteOffset() >= from && x.ByteOffset() < to {
			if _, ok := x.(*parser.Program); !ok {
				r = append(r, x)
				return
			}
		}
		x.Contents(nil, func(path []parser.Expression, c parser.Expression) { visit(c) })
	}
	visit(e)
	return
}

func statementsOf(e parser.Expression) []parser.Expression {
	if p, ok := e.(*parser.Program); ok {
		e = p.Body()
	}
	if b, ok := e.(*parser.BlockExpression); ok {
		return b.Statements()
	}
	return []parser.Expression{e}
}

func parsed(mode, src string) parser.Expression {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	return e
}

// C25_places: a construct yields the same tree wherever it is.
func C25_places() {
	mode, src, off, t := someStatements(2)
	sameTrees(statementsOf(parsed("p", t.src)), mode, src, off, off+len(t.src))
}

// shifted asserts that the location in a source is that of a part of it, moved by what precedes the part.
func shifted(src string, off, line, pos, partLine, partPos int, what string) {
	l, p := lineOf(src, off)+partLine-1, partPos
	if partLine == 1 {
		p += posOf(src, off) - 1
	}
	if line != l || pos != p {
		vp.Fail(what + " is at " + itoa(line) + ":" + itoa(pos) + " instead of " + itoa(l) + ":" + itoa(p) + " in " + src)
	}
}

// C10_places: the nodes of a construct are moved by what precedes it, wherever it is.
func C10_places() {
	mode, src, off, t := someStatements(2)
	e := parsed(mode, src)
	checkSpans(mode, src, "", e)
	want := statementsOf(parsed("p", t.src))
	got := nodesWithin(e, off, off+len(t.src))
	if len(want) != len(got) {
		vp.Fail("number of statements in " + src)
	}
	for i := range want {
		a, b := nodesOf(want[i]), nodesOf(got[i])
		if len(a) != len(b) {
			vp.Fail("number of nodes in " + src)
		}
		for k := range a {
			x, y := a[k].e, b[k].e
			if _, ok := x.(*parser.Nop); ok {
				continue // not in the source
			}
			if y.ByteOffset() != x.ByteOffset()+off || y.ByteLength() != x.ByteLength() && x.ByteOffset()+x.ByteLength() < len(t.src) {
				vp.Fail(x.Label() + " is " + y.String() + " instead of " + x.String() + " in " + src)
			}
			shifted(src, off, y.Line(), y.Pos(), x.Line(), x.Pos(), x.Label())
		}
	}
}

// C11_places: an illegal character is reported at its place, wherever it is.
func C11_places() {
	mode, src, off, t := someStatements(1)
	if strings.Contains(t.src, "#") || len(t.gaps) == 0 {
		return
	}
	at := off + t.gaps[vp.Choose(len(t.gaps))]
	for i := at - 1; i >= 0 && src[i] <= '|'; i-- {
		if src[i] == '|' {
			return // the character that follows tells if this starts or ends parameters
		}
		if src[i] > ' ' {
			break
		}
	}
	wantErrAt(mode, src[:at]+"^"+src[at:], at)
}

// C15_places: definitions are recorded wherever they are.
func C15_places() {
	mode, src, off, t := someStatements(2)
	e := parsed(mode, src)
	checkDefs(e)
	want := parsed("p", t.src).(*parser.Program).Definitions()
	n := 0
	for _, d := range e.(*parser.Program).Definitions() {
		if o := d.ByteOffset(); o < off || o >= off+len(t.src) {
			continue
		}
		if n >= len(want) {
			vp.Fail("additional definition in " + src)
		}
		vp.Assert(d.ToPN().String() == want[n].ToPN().String(), "definition "+d.ToPN().String()+" in "+src)
		n++
	}
	vp.Assert(n == len(want), "definition lost in "+src)
}

// C16_places: the problems of a construct are reported wherever it is.
func C16_places() {
	mode, src, off, t := someStatements(2)
	if mode == "t" || mode == "w" {
		return // have rules of their own
	}
	got := validate(mode, parsed(mode, src), validator.StrictError)
	for _, w := range validate("p", parsed("p", t.src), validator.StrictError) {
		found := false
		for _, g := range got {
			if g.Code() != w.Code() || found {
				continue
			}
			l, p := lineOf(src, off)+w.Location().Line()-1, w.Location().Pos()
			if w.Location().Line() == 1 {
				p += posOf(src, off) - 1
			}
			found = g.Location().Line() == l && g.Location().Pos() == p && g.Severity() == w.Severity()
		}
		vp.Assert(found, w.Error()+" is not reported in "+src)
	}
}

// Places for a value.
var valuePlaces = []struct{ mode, pre, post string }{
	{"p", "[", "]"},
	{"p", "[1, ", ", 2]"},
	{"p", "{z => ", "}"},
	{"p", "{z => 1, 'y' => ", ", x => 2}"},
	{"p", "f(", ")"},
	{"p", "f(1, ", ") |$z| { }"},
	{"p", "$z.f(", ")"},
	{"p", "notice 1, ", ""},
	{"p", "notice $z, ", ""},
	{"p", "$z[", "]"},
	{"p", "$z = (", ")"},
	{"p", "$z += ", ""},
	{"p", "if ", " { 1 }"},
	{"p", "if 1 { 2 } elsif ", " { 1 }"},
	{"p", "case ", " { 1: { 2 } }"},
	{"p", "case 1 { 3, ", " : { 2 } }"},
	{"p", "$z ? { 1 => ", ", default => 2 }"},
	{"p", "z { 'y': x => ", " }"},
	{"p", "z { 'y': x => 1; 'v': w => ", ", * => $u }"},
	{"p", "Z { y => ", " }"},
	{"p", "Z['y'] { x +> ", " }"},
	{"p", "class z($y = ", ", $x) { }"},
	{"p", "define z(Y[", "] $x) { }"},
	{"p", "function z(Y $x = ", ") { }"},
	{"p", "$z.f |Y $x = ", "| { 1 }"},
	{"p", "$z -> ", ""},
	{"p", "Z consumes Y { x => ", " }"},
	{"t", "plan zz($y = ", ") { }"},
	{"e", "@<%= ", " %>@"},
	{"e", "<%| $z = ", " |%>@"},
	{"p", "\"@${[", "]}@\""},
	{"p", "\"@${f(", ")}@\""},
	{"p", "$z = @(\"ZZ\")\n@ ${(", ")}@\n | ZZ\n"},
	{"w", "workflow z { parameters => ($y = ", ") } { }"},
}

// someValue chooses a value and a place for it. The result is like that of someStatements.
func someValue(text int) (mode, src string, off int, val string) {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode != "p" || !strings.HasPrefix(t.src, "$a = ") || t.src == "$a = $bq = 7" {
		vp.Assume(false)
	}
	val = t.src[5:]
	p := &valuePlaces[vp.Choose(len(valuePlaces))]
	if strings.HasPrefix(p.pre, "$z = @") && strings.Contains(val, "@(") {
		vp.Assume(false)
	}
	if (strings.HasPrefix(p.pre, "if") || strings.HasPrefix(p.pre, "elsif")) && strings.Contains(val, "?") {
		vp.Assume(false) // selectors are no conditions
	}
	pre := textsIn(p.mode, p.pre, text)
	return p.mode, pre + val + textsIn(p.mode, p.post, text/2), len(pre), val
}

func rhsOf(val string) parser.Expression {
	return statementsOf(parsed("p", "$a = "+val))[0].(*parser.AssignmentExpression).Rhs()
}

// C25_values: a value yields the same tree wherever it is.
func C25_values() {
	mode, src, off, val := someValue(2)
	sameTrees([]parser.Expression{rhsOf(val)}, mode, src, off, off+len(val))
}

// C10_values: a value is moved by what precedes it, wherever it is.
func C10_values() {
	mode, src, off, val := someValue(2)
	e := parsed(mode, src)
	checkSpans(mode, src, "", e)
	got := nodesWithin(e, off, off+len(val))
	if len(got) != 1 {
		vp.Fail("not one value in " + src)
	}
	off -= len("$a = ")
	a, b := nodesOf(rhsOf(val)), nodesOf(got[0])
	if len(a) != len(b) {
		vp.Fail("number of nodes in " + src)
	}
	for k := range a {
		x, y := a[k].e, b[k].e
		if _, ok := x.(*parser.Nop); ok {
			continue // not in the source
		}
		if y.ByteOffset() != x.ByteOffset()+off || y.ByteLength() != x.ByteLength() && x.ByteOffset()+x.ByteLength() < len("$a = "+val) {
			vp.Fail(x.Label() + " is " + y.String() + " instead of " + x.String() + " in " + src)
		}
	}
}

// C11_values: an illegal character is reported at its place in every value.
func C11_values() {
	mode, src, off, val := someValue(1)
	var at []int
	for _, t := range tmpls {
		if t.src == "$a = "+val {
			for _, g := range t.gaps {
				if g >= len("$a = ") && g < len(t.src) {
					at = append(at, off+g-len("$a = "))
				}
			}
			break
		}
	}
	if len(at) > 0 {
		k := at[vp.Choose(len(at))]
		wantErrAt(mode, src[:k]+"^"+src[k:], k)
	}
}

func placeLayout() string {
	if vp.Thorough() {
		return []string{"\n\t", "/*'\n*/", "# \"}%>\n"}[vp.Choose(3)]
	}
	return "\n\t/*'\n*/# \"}%>\n"
}

// C09_places: layout is insignificant wherever the construct is.
func C09_places() {
	mode, src, off, t := someStatements(0)
	at := off + gapOf(t)
	l := placeLayout()
	src = src[:at] + l + src[at:]
	sameTrees(statementsOf(parsed("p", t.src)), mode, src, off, off+len(t.src)+len(l))
}

// C09_values: layout is insignificant wherever the value is.
func C09_values() {
	mode, src, off, val := someValue(0)
	for i := range tmpls {
		if tmpls[i].src == "$a = "+val {
			at := gapOf(&tmpls[i]) - len("$a = ")
			if at < 0 {
				return
			}
			l := placeLayout()
			src = src[:off+at] + l + src[off+at:]
			sameTrees([]parser.Expression{rhsOf(val)}, mode, src, off, off+len(val)+len(l))
			return
		}
	}
}

// sameTrees asserts that the given part of a source yields the given trees
func sameTrees(want []parser.Expression, mode, src string, from, to int) {
	got := nodesWithin(parsed(mode, src), from, to)
	for i := range want {
		if i >= len(got) {
			vp.Fail("statement lost in " + src)
		}
		vp.Assert(got[i].ToPN().String() == want[i].ToPN().String(), got[i].ToPN().String()+" instead of "+want[i].ToPN().String()+" in "+src)
		vp.Assert(got[i].Label() == want[i].Label(), "label of "+got[i].Label())
	}
	vp.Assert(len(got) == len(want), "additional statement in "+src)
}
