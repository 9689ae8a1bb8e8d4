package h

import (
	"github.com/lyraproj/issue/issue"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

type node struct {
	e      parser.Expression
	parent int
}

// nodesOf lists all nodes in depth first order
func nodesOf(e parser.Expression) []node {
	ns := []node{{e, -1}}
	idx := map[parser.Expression]int{e: 0}
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
		p := -1
		if len(path) > 0 {
			p = idx[path[len(path)-1]]
		}
		idx[x] = len(ns)
		ns = append(ns, node{x, p})
	})
	return ns
}

func lineOf(src string, off int) int {
	n := 1
	for i := 0; i < off && i < len(src); i++ {
		if src[i] == '\n' {
			n++
		}
	}
	return n
}

func posOf(src string, off int) int {
	s := 0
	for i := 0; i < off && i < len(src); i++ {
		if src[i] == '\n' {
			s = i + 1
		}
	}
	return utf8.RuneCountInString(src[s:off]) + 1
}

func checkSpans(mode, src, file string, e parser.Expression) {
	ns := nodesOf(e)
	for i := range ns {
		x := ns[i].e
		off, ln := x.ByteOffset(), x.ByteLength()
		if off < 0 || ln < 0 || off+ln > len(src) {
			vp.Fail(x.Label() + " outside source " + src)
		}
		txt := src[off : off+ln]
		vp.Assert(x.String() == txt, x.Label()+" text differs in "+src)
		vp.Assert(x.Line() == lineOf(src, off), x.Label()+" wrong line in "+src)
		vp.Assert(x.Pos() == posOf(src, off), x.Label()+" wrong position in "+src)
		vp.Assert(x.File() == file, "wrong file")
		if l, ok := x.(interface{ Location() issue.Location }); ok {
			at := l.Location()
			vp.Assert(at.File() == file && at.Line() == x.Line() && at.Pos() == x.Pos(), "location of "+x.Label())
		}
		if p := ns[i].parent; p >= 0 {
			if ns[p].e.ByteOffset() > off {
				vp.Fail(x.Label() + " starts before " + ns[p].e.Label() + " in " + src)
			}
			_, heredoc := x.(*parser.HeredocExpression) // its text may follow the node that contains it
			if mode != "w" && !heredoc && ns[p].e.ByteOffset()+ns[p].e.ByteLength() < off+ln {
				vp.Fail(x.Label() + " ends after " + ns[p].e.Label() + " in " + src)
			}
		}
		if ln == 0 || mode == "w" {
			continue // generated nodes
		}
		switch x := x.(type) {
		case *parser.QualifiedName:
			vp.Assert(txt == x.Name(), "name is "+txt+" in "+src)
		case *parser.QualifiedReference:
			vp.Assert(txt == x.Name(), "reference is "+txt+" in "+src)
		case *parser.VariableExpression:
			vp.Assert(txt[0] == '$', "variable is "+txt+" in "+src)
			if n, ok := x.Name(); ok && n != "" {
				vp.Assert(txt[1:] == n || txt[1] == '{' && strings.Contains(src[off:], n), "variable is "+txt+" in "+src)
			} else if n, ok := x.Index(); ok {
				v, err := strconv.ParseInt(txt[1:], 10, 64)
				vp.Assert(txt[1] == '{' || err == nil && v == n, "variable is "+txt+" in "+src)
			}
		case *parser.LiteralInteger:
			base := 0
			if off > 0 && src[off-1] == '$' {
				base = 10
			}
			v, err := strconv.ParseInt(txt, base, 64)
			vp.Assert(err == nil && v == x.Int(), "integer is "+txt+" in "+src)
		case *parser.LiteralFloat:
			vp.Assert(txt[0] == '-' || txt[0] == '+' || txt[0] >= '0' && txt[0] <= '9', "number is "+txt+" in "+src)
		case *parser.LiteralUndef:
			vp.Assert(txt == "undef", "undef is "+txt+" in "+src)
		case *parser.LiteralDefault:
			vp.Assert(txt == "default", "default is "+txt+" in "+src)
		case *parser.LiteralBoolean:
			vp.Assert(txt == "true" || txt == "false", "boolean is "+txt+" in "+src)
		case *parser.RegexpExpression:
			vp.Assert(txt[0] == '/' && txt[ln-1] == '/', "regexp is "+txt+" in "+src)
		case *parser.LiteralList:
			vp.Assert(txt[0] == '[' || txt[0] == '(' || mode == "p", "list is "+txt+" in "+src)
		}
	}
}

// C10_gaps: spans of every construct, with arbitrary layout between tokens.
func C10_gaps() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := gapOf(t)
	l := layout(vp.Choose(layoutKinds()))
	src := t.src[:at] + l + t.src[at:]
	e, err := parser.CreateParser(optionsOf(t.mode)...).Parse("file", src, t.mode == "s")
	if err != nil {
		vp.Fail(err.Error())
	}
	checkSpans(t.mode, src, "file", e)
}

// C10_shift: layout inserted before a token moves exactly the nodes that
// start at that token or later.
func C10_shift() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := gapOf(t)
	l := layout(vp.Choose(layoutKinds()))
	a, err := ParseMode(t.mode, t.src)
	if err != nil {
		vp.Fail(err.Error())
	}
	b, err := ParseMode(t.mode, t.src[:at]+l+t.src[at:])
	if err != nil {
		vp.Fail(err.Error())
	}
	na, nb := nodesOf(a), nodesOf(b)
	vp.Assert(len(na) == len(nb), "number of nodes")
	for i := range na {
		if na[i].e.ByteLength() == 0 {
			continue
		}
		exp := na[i].e.ByteOffset()
		if exp >= at && at > 0 {
			exp += len(l)
		}
		if got := nb[i].e.ByteOffset(); got != exp && !(at == 0 && got == exp+len(l)) {
			vp.Fail(na[i].e.Label() + " starts at wrong offset in " + t.src[:at] + l + t.src[at:])
		}
	}
}

// C10_bytes: spans in arbitrary sources.
func C10_bytes() {
	n := lenFor(3, 4)
	s := vp.Bytes(n)
	mode := []string{"p", "e"}[vp.Choose(2)]
	e, err := parser.CreateParser(optionsOf(mode)...).Parse("f", s, false)
	if err == nil {
		checkSpans(mode, s, "f", e)
	}
}

// C10_grammar: spans in combinations of constructs, after text with
// characters of several bytes.
func C10_grammar() {
	g := someGram(2, 3)
	src, _ := g.source()
	if k := vp.Choose(3); k > 0 && len(g.gaps) > 0 {
		at := g.gaps[0]
		if k == 2 {
			at = g.gaps[len(g.gaps)/2]
		}
		src = src[:at] + "/*\u00e5\u4e16*/\n #\u00e5\U0001f600\n/*\u4e16*/" + src[at:]
	}
	e, err := parser.CreateParser(optionsOf(g.mode)...).Parse("file", src, false)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	checkSpans(g.mode, src, "file", e)
}

// C10_interpolated: the nodes of an expression in a string have the same
// extent as those of the expression by itself.
func C10_interpolated() {
	chain := ""
	for n := 1 + lenFor(3, 4); n > 0; n-- {
		chain += []string{"[1]", ".bc", ".bc(2, $d)", ".bc |$x| { $x }", "[e, 3]", ".bc()"}[vp.Choose(6)]
	}
	plain, quoted := "$x = ( $a"+chain+")", "$x = \"${a"+chain+"}\""
	if vp.Bool() {
		quoted = "$x = @(\"END\")\n${a" + chain + "}\nEND\n"
	}
	x, err := ParseMode("p", plain)
	if err != nil {
		return // one of the links cannot follow another
	}
	y, err := ParseMode("p", quoted)
	if err != nil {
		vp.Fail(err.Error() + " in " + quoted)
	}
	vp.Cover("compared")
	var xs, ys []visit
	x.AllContents(nil, record(&xs))
	y.AllContents(nil, record(&ys))
	i, j := 0, 0
	for _, ok := xs[i].e.(*parser.ParenthesizedExpression); !ok; _, ok = xs[i].e.(*parser.ParenthesizedExpression) {
		i++
	}
	for _, ok := ys[j].e.(*parser.TextExpression); !ok; _, ok = ys[j].e.(*parser.TextExpression) {
		j++
	}
	// the text between the two starts
	from, to := xs[i+1].e.ByteOffset(), ys[j+1].e.ByteOffset()
	vp.Assert(plain[from:from+2] == "$a" && quoted[to:to+3] == "${a", "start of "+xs[i+1].e.Label())
	for i, j = i+1, j+1; i < len(xs) && j < len(ys); i, j = i+1, j+1 {
		a, b := xs[i].e, ys[j].e
		vp.Assert(a.Label() == b.Label(), a.Label()+" is "+b.Label())
		start, end := a.ByteOffset()-from, a.ByteOffset()-from+a.ByteLength()
		if start > 0 {
			start++
		}
		vp.Assert(b.ByteOffset() == to+start, "start of "+a.Label()+" in "+quoted)
		vp.Assert(b.ByteOffset()+b.ByteLength() == to+end+1, "end of "+a.Label()+" in "+quoted)
	}
	vp.Assert(j == len(ys) || ys[j].e.ByteOffset() > to, "nodes of "+quoted)
}
