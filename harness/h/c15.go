package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// isDef tells if the node introduces a definition
func isDef(v visit) bool {
	switch v.e.(type) {
	case *parser.StepExpression:
		for _, p := range v.path {
			if _, ok := p.(*parser.StepExpression); ok {
				return false // part of the outer step
			}
		}
		return true
	case parser.Definition:
		return true
	}
	return false
}

func checkDefs(e parser.Expression) int {
	p, ok := e.(*parser.Program)
	if !ok {
		vp.Fail("no program")
	}
	var vs []visit
	p.AllContents(nil, record(&vs))
	n := 0
	have := map[parser.Expression]int{}
	for _, d := range p.Definitions() {
		have[d]++
	}
	for _, v := range vs {
		if isDef(v) {
			n++
			vp.Assert(have[v.e] == 1, v.e.Label()+" is not listed exactly once as a definition")
		}
	}
	vp.Assert(len(p.Definitions()) == n, "definitions that are not in the tree")
	// a definition ends before the one that contains it
	k := 0
	var open []parser.Expression
	end := func(to int) {
		for len(open) > to {
			d := open[len(open)-1]
			open = open[:len(open)-1]
			vp.Assert(p.Definitions()[k] == d, d.Label()+" is not listed at its place")
			k++
		}
	}
	for _, v := range vs {
		if isDef(v) {
			to := 0
			for _, a := range v.path {
				if to < len(open) && open[to] == a {
					to++
				}
			}
			end(to)
			open = append(open, v.e)
		}
	}
	end(0)
	return n
}

// C15_templates: every construct.
func C15_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "s" {
		return
	}
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err != nil {
		vp.Fail(err.Error())
	}
	checkDefs(e)
}

// C15_bytes: arbitrary sources.
func C15_bytes() {
	s := []string{"", "type A=B", "function a{}", "node a {}"}[vp.Choose(4)]
	e, err := ParseMode("p", s+vp.Bytes(lenFor(2, 3)))
	if err == nil {
		checkDefs(e)
	}
}

var defs = []string{"class c { @ }", "define d { @ }", "node n { @ }", "function f { @ }", "application p { @ }", "site { @ }", "class c($x = 1) inherits b { @ }",
	"if $x { @ }", "if $x { 1 } else { @ }", "case $x { 1: { @ } }", "unless $x { @ } else { 2 }", "$x.each |$y| { @ }", "f(1) |$x| { @ }", "$x = if $y { @ }", "a { 'b': c => f() |$x| { @ } }", "notice({ a => f() |$x| { @ } })"}

var defLeaf = []string{"$x = 1", "type A = B", "type A { 1 }", "type A = Object { attributes => { a => 1 } }", "A produces B { c => $d }", "a { 'b': }", "A { b => c }", "A['x'] { b => c }", "notice {a => 1}", "type A[b] = C"}

// C15_nested: definitions in definitions and other constructs, all recorded
// even when the parser must look ahead.
func C15_nested() {
	s := defLeaf[vp.Choose(len(defLeaf))]
	k := 1
	if vp.Thorough() {
		k = 2
	}
	want := 0
	n := vp.Choose(k + 2)
	if strings.HasPrefix(s, "type A") || strings.HasPrefix(s, "A produces") {
		want++
	}
	for i := 0; i < n; i++ {
		d := vp.Choose(len(defs))
		if d < 7 {
			want++
		}
		s = strings.Replace(defs[d], "@", s, 1)
	}
	if vp.Bool() {
		s = s + "\n" + "class z { }\n1"
		want++
	}
	e, err := ParseMode("p", s)
	if err != nil {
		vp.Cover("rejected")
		return
	}
	vp.Assert(checkDefs(e) == want, "wrong number of definitions in "+s)
}

// C15_modes: definitions in templates, workflows, and plans.
func C15_modes() {
	src := []string{
		"e<% class a { %>x<% class b { %>y<% } } %>", "e<% if $a { %><% function b { } %><% } %>",
		"wworkflow a { } { action b { } { } }", "wworkflow a { } { action b { } { } }\nresource c { } { d => 1 }", "wif $x { action b { } { } }", "wclass a { action b { } { } }",
		"tplan a { }\nplan b { function c { } }", "tplan a { class c { } }",
	}[vp.Choose(8)]
	want := []int{2, 1, 1, 2, 1, 2, 3, 2}
	at := -1
	for i, s := range []string{"e<% class", "e<% if", "wworkflow a { } { action b { } { } }", "", "wif", "wclass", "tplan a { }", "tplan a { c"} {
		if s != "" && strings.HasPrefix(src, s) {
			at = i
		}
	}
	if strings.Contains(src, "resource c") {
		at = 3
	}
	e, err := ParseMode(src[:1], src[1:])
	if err != nil {
		vp.Fail(err.Error())
	}
	vp.Assert(checkDefs(e) == want[at], "wrong number of definitions in "+src)
}

// C15_grammar: combinations of constructs.
func C15_grammar() {
	g := someGram(2, 3)
	e, src, _ := g.tree()
	checkDefs(e)
	got := ""
	for _, d := range e.(*parser.Program).Definitions() {
		got += d.ToPN().String() + "\n"
	}
	want := ""
	for _, d := range g.defs {
		want += d + "\n"
	}
	vp.Assert(got == want, "definitions of "+src+" are "+got+" instead of "+want)
}
