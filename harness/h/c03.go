package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func outcome(e parser.Expression, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	s := e.ToPN().String()
	if p, ok := e.(*parser.Program); ok {
		for _, d := range p.Definitions() {
			s += "\n" + d.ToPN().String()
		}
	}
	return s
}

// probes are parsed after another source.
var probes = map[string][]string{
	"p": {"class a { class b { 1 } }\n$c = \"x${d}y\"", "(1)\n[2]", "notice @(A)\nx\nA\n  [1]", "$x = { 'a' => 1 }\nb { 'c': d => e }\ntype A = B", "class b { ( }", "", "node a { } function b { 1 } define c { }"},
	"e": {"x <%= $a %> y", "<%| $a |%> b", "<% if $a { %> b <% } -%>\nc", "a", "<% ( %>"},
	"w": {"workflow a { } { action b { } { 7 } }", "$a = 1", "workflow a { } { action b { } [ }"},
	"t": {"plan a ($b) { $b }", "class a { }", "plan a { ( }"},
	"b": {"$a = `x`", "$a = \"\\x41${b}\""},
}

func reuse(mode string, srcA string, single bool) {
	p := parser.CreateParser(optionsOf(mode)...)
	_, _ = p.Parse("first", srcA, single)
	ps := probes[mode]
	b := ps[vp.Choose(len(ps))]
	got := outcome(p.Parse("", b, false))
	exp := outcome(parser.CreateParser(optionsOf(mode)...).Parse("", b, false))
	vp.Assert(got == exp, "after "+srcA+" the source "+b+" gives "+got+" instead of "+exp)
}

// C03_bytes: arbitrary bytes, then a probe, with the same parser.
func C03_bytes() {
	mode := []string{"p", "e", "w", "t", "b"}[vp.Choose(5)]
	n := lenFor(2, 3)
	reuse(mode, vp.Bytes(n), vp.Bool())
}

// C03_cut: a truncated construct, then a probe.
func C03_cut() {
	t := &tmpls[vp.Choose(len(tmpls))]
	mode := t.mode
	if mode == "s" {
		mode = "p"
	}
	at := vp.Choose(len(t.src) + 1)
	src := t.src[:at]
	if vp.Thorough() {
		src += vp.Bytes(1)
	} else if at < len(t.src) {
		src += string([]byte{vp.ByteOf(")^\"\n$")})
	}
	reuse(mode, src, t.mode == "s")
}

// C03_then: a probe source or a truncated one, then every construct.
func C03_then() {
	t := &tmpls[vp.Choose(len(tmpls))]
	mode := t.mode
	if mode == "s" {
		mode = "p"
	}
	p := parser.CreateParser(optionsOf(mode)...)
	ps := probes[mode]
	a := ps[vp.Choose(len(ps))]
	a = a[:vp.Choose(len(a)+1)] + string([]byte{vp.ByteOf("\n)\"")})
	_, _ = p.Parse("first", a, false)
	e, err := p.Parse("", t.src, t.mode == "s")
	if err != nil {
		vp.Fail("after " + a + ": " + err.Error())
	}
	got := e.ToPN().String()
	vp.Assert(got == t.pn, "after "+a+" the source "+t.src+" gives "+got)
}

// C03_others: what other parsers do has no influence.
func C03_others() {
	mode := []string{"p", "e", "w", "t", "b"}[vp.Choose(5)]
	modeB := []string{"p", "e", "w", "t", "b"}[vp.Choose(5)]
	ps := probes[modeB]
	b := ps[vp.Choose(len(ps))]
	p := parser.CreateParser(optionsOf(modeB)...)
	exp := outcome(parser.CreateParser(optionsOf(modeB)...).Parse("", b, false))
	_, _ = parser.CreateParser(optionsOf(mode)...).Parse("", vp.Bytes(lenFor(1, 2)), false)
	got := outcome(p.Parse("", b, false))
	vp.Assert(got == exp, "source "+b+" gives "+got+" instead of "+exp)
}

// C03_kept: a tree, and its definitions, are not changed by what is parsed
// afterwards with the same parser or another one.
func C03_kept() {
	t := &tmpls[vp.Choose(len(tmpls))]
	p := parser.CreateParser(optionsOf(t.mode)...)
	e, err := p.Parse("first", t.src, t.mode == "s")
	if err != nil {
		vp.Fail(err.Error())
	}
	was := outcome(e, err)
	if t.mode != "s" {
		was += state(e)
	}
	var b string
	if vp.Bool() {
		ps := probes[map[string]string{"p": "p", "e": "e", "w": "w", "t": "t", "b": "b", "s": "p"}[t.mode]]
		b = ps[vp.Choose(len(ps))]
	} else {
		b = tmpls[vp.Choose(len(tmpls))].src
	}
	p.Parse("second", b, false)
	if vp.Bool() {
		parser.CreateParser(optionsOf(t.mode)...).Parse("third", b, false)
	}
	got := outcome(e, err)
	if t.mode != "s" {
		got += state(e)
	}
	vp.Assert(got == was, "the tree of "+t.src+" is changed by "+b+" to "+got)
}

// C03_grammar: combinations of constructs, before and after something else.
func C03_grammar() {
	g := someGram(1, 2)
	src, pn := g.source()
	p := parser.CreateParser(optionsOf(g.mode)...)
	ps := probes[g.mode]
	b := ps[vp.Choose(len(ps))]
	before := vp.Bool()
	if before {
		p.Parse("", b[:len(b)-vp.Choose(3)%(len(b)+1)], false)
	}
	e, err := p.Parse("", src, false)
	if err != nil {
		vp.Fail("rejected after " + b + ": " + err.Error() + " in " + src)
	}
	vp.Assert(e.ToPN().String() == pn, "after "+b+" the source "+src+" gives "+e.ToPN().String())
	if !before {
		got := outcome(p.Parse("", b, false))
		want := outcome(parser.CreateParser(optionsOf(g.mode)...).Parse("", b, false))
		vp.Assert(got == want, "after "+src+" the source "+b+" gives "+got+" instead of "+want)
	}
}

var modeWords = []string{"run_plan", "run_task", "run_command", "run_script", "upload_file", "file_upload", "plan", "workflow", "action", "resource", "stateHandler", "step", "notice", "include", "return", "break", "next", "fail", "type", "attr", "private", "site", "application", "produces", "foo"}

var modeForms = []string{"^ 'x'", "^ 'x', 'y'", "^ $x { }", "^ a { }", "^ a { } { }", "$x = ^", "f(^)", "^(1)", "$x.^", "^ { 'a': }", "class ^ { }", "^", "\"\\x41\"", "`^`", "a <%= ^ %>"}

// C03_modes: what parsers of all other modes do has no influence on a parser,
// whether it was created before or after them.
func C03_modes() {
	modes := []string{"p", "e", "w", "t", "b"}
	mode := modes[vp.Choose(5)]
	src := strings.Replace(modeForms[vp.Choose(len(modeForms))], "^", modeWords[vp.Choose(len(modeWords))], 1)
	if mode == "e" {
		src = "<% " + src + " %>"
	}
	p := parser.CreateParser(optionsOf(mode)...)
	want := outcome(p.Parse("", src, false))
	for _, m := range modes {
		if m != mode {
			q := parser.CreateParser(optionsOf(m)...)
			q.Parse("", src, false)
			for _, b := range probes[m] {
				q.Parse("", b, false)
			}
		}
	}
	got := outcome(p.Parse("", src, false))
	vp.Assert(got == want, src+" gives "+got+" after other parsers were used, "+want+" before")
	got = outcome(parser.CreateParser(optionsOf(mode)...).Parse("", src, false))
	vp.Assert(got == want, src+" gives "+got+" for a new parser after others were used, "+want+" before")
}

// C03_pspec: the parser for specifications is the one with its two modes.
func C03_pspec() {
	src := "$a = " + vp.BytesOf("`\"\\x41qy ", lenFor(3, 4)) + []string{"", "`", "\""}[vp.Choose(3)]
	single := vp.Bool()
	a, b := parser.CreatePspecParser(), parser.CreateParser(parser.HandleBacktickStrings, parser.HandleHexEscapes)
	x, xe := a.Parse("f.pp", src, single)
	y, ye := b.Parse("f.pp", src, single)
	if xe != nil || ye != nil {
		vp.Assert(xe != nil && ye != nil && xe.Error() == ye.Error(), "errors of "+src)
		return
	}
	vp.Cover("accepted")
	vp.Assert(x.ToPN().String() == y.ToPN().String(), "trees of "+src)
}
