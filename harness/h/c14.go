package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func list(before []parser.Expression, es []parser.Expression, after ...parser.Expression) (r []parser.Expression) {
	return append(append(append(r, before...), es...), one(after...)...)
}

func one(es ...parser.Expression) (r []parser.Expression) {
	for _, e := range es {
		if e != nil {
			r = append(r, e)
		}
	}
	return
}

// parts returns what the accessors of a node give, in the order of the source
func parts(e parser.Expression) []parser.Expression {
	switch e := e.(type) {
	case *parser.Program:
		return one(e.Body())
	case *parser.AccessExpression:
		return append(one(e.Operand()), e.Keys()...)
	case *parser.AttributeOperation:
		return one(e.Value())
	case *parser.AttributesOperation:
		return one(e.Expr())
	case *parser.BlockExpression:
		return e.Statements()
	case parser.CallExpression:
		return list(one(e.Functor()), e.Arguments(), e.Lambda())
	case *parser.CapabilityMapping:
		return append(one(e.Component()), e.Mappings()...)
	case *parser.CaseExpression:
		return append(one(e.Test()), e.Options()...)
	case *parser.CaseOption:
		return list(nil, e.Values(), e.Then())
	case *parser.CollectExpression:
		return append(one(e.ResourceType(), e.Query()), e.Operations()...)
	case *parser.ConcatenatedString:
		return e.Segments()
	case *parser.EppExpression:
		return one(e.Body())
	case *parser.PlanDefinition:
		return list(nil, e.Parameters(), e.ReturnType(), e.Body())
	case *parser.FunctionDefinition:
		return list(nil, e.Parameters(), e.ReturnType(), e.Body())
	case *parser.HeredocExpression:
		return one(e.Text())
	case *parser.UnlessExpression:
		return one(e.Test(), e.Then(), e.Else())
	case *parser.IfExpression:
		return one(e.Test(), e.Then(), e.Else())
	case *parser.KeyedEntry:
		return one(e.Key(), e.Value())
	case *parser.LambdaExpression:
		return list(nil, e.Parameters(), e.ReturnType(), e.Body())
	case *parser.LiteralHash:
		return e.Entries()
	case *parser.LiteralList:
		return e.Elements()
	case *parser.NodeDefinition:
		return list(one(e.Parent()), e.HostMatches(), e.Body())
	case *parser.Parameter:
		return one(e.Type(), e.Value())
	case *parser.ResourceBody:
		return append(one(e.Title()), e.Operations()...)
	case *parser.ResourceDefaultsExpression:
		return append(one(e.TypeRef()), e.Operations()...)
	case *parser.ResourceExpression:
		return append(one(e.TypeName()), e.Bodies()...)
	case *parser.ResourceOverrideExpression:
		return append(one(e.Resources()), e.Operations()...)
	case *parser.SelectorEntry:
		return one(e.Matching(), e.Value())
	case *parser.SelectorExpression:
		return append(one(e.Lhs()), e.Selectors()...)
	case *parser.SiteDefinition:
		return one(e.Body())
	case *parser.StepExpression:
		return one(e.Properties(), e.Definition())
	case *parser.TypeAlias:
		return one(e.Type())
	case *parser.TypeDefinition:
		return one(e.Body())
	case *parser.TypeMapping:
		return one(e.Type(), e.Mapping())
	case parser.QueryExpression:
		return one(e.Expr())
	case parser.NamedDefinition:
		return list(nil, e.Parameters(), e.Body())
	case parser.BinaryExpression:
		return one(e.Lhs(), e.Rhs())
	case parser.UnaryExpression:
		return one(e.Expr())
	}
	return nil
}

type visit struct {
	e    parser.Expression
	path []parser.Expression
}

func record(to *[]visit) parser.PathVisitor {
	return func(path []parser.Expression, e parser.Expression) {
		*to = append(*to, visit{e, append([]parser.Expression(nil), path...)})
	}
}

func samePath(a, b []parser.Expression) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkNode(e parser.Expression, path []parser.Expression) {
	var direct []visit
	e.Contents(path, record(&direct))
	want := parts(e)
	vp.Assert(len(direct) == len(want), e.Label()+": wrong number of parts is visited")
	below := append(append([]parser.Expression(nil), path...), e)
	seen := map[parser.Expression]int{}
	for _, v := range direct {
		vp.Assert(v.e != nil, e.Label()+": visits nil")
		vp.Assert(samePath(v.path, below), e.Label()+": wrong path")
		seen[v.e]++
	}
	if !ordered(e, direct, want) {
		vp.Fail(e.Label() + ": order of the parts")
	}
	for _, w := range want {
		vp.Assert(seen[w] == 1, e.Label()+": part is not visited exactly once")
	}
	for _, v := range direct {
		checkNode(v.e, below)
	}
}

// ordered tells if the parts of a node are visited in the order of the source.
// The return type of a lambda may be before or after its body, the parent of a
// node is before its names.
func ordered(e parser.Expression, direct []visit, want []parser.Expression) bool {
	l, ok := e.(*parser.LambdaExpression)
	n := len(want)
	for i, v := range direct {
		if v.e != want[i] && !(ok && l.ReturnType() != nil && i >= n-2 && v.e == want[2*n-3-i]) {
			return false
		}
	}
	return true
}

func flatten(e parser.Expression, path []parser.Expression, to *[]visit) {
	below := append(append([]parser.Expression(nil), path...), e)
	var direct []visit
	e.Contents(path, record(&direct))
	for _, v := range direct {
		*to = append(*to, visit{v.e, below})
		flatten(v.e, below, to)
	}
}

func checkVisits(e parser.Expression) {
	checkNode(e, nil)
	var deep, want []visit
	e.AllContents(nil, record(&deep))
	flatten(e, nil, &want)
	vp.Assert(len(deep) == len(want), "deep visit differs from repeated shallow visits")
	for i := range deep {
		vp.Assert(deep[i].e == want[i].e, "order of deep visit")
		vp.Assert(samePath(deep[i].path, want[i].path), "path of deep visit to "+deep[i].e.Label())
	}
	pn := e.ToPN().String()
	vars, refs := 0, 0
	for _, v := range append([]visit{{e, nil}}, deep...) {
		switch v.e.(type) {
		case *parser.VariableExpression:
			vars++
		case *parser.QualifiedReference:
			refs++
		}
	}
	if vars == strings.Count(pn, "(var ") && refs == strings.Count(pn, "(qr ") {
		return
	}
	for _, v := range deep {
		if l, ok := v.e.(parser.LiteralValue); ok {
			if s, ok := l.Value().(string); ok && strings.Contains(s, "(") {
				return // could look like notation
			}
		}
	}
	vp.Fail("variables or references visited in " + pn)
}

// C14_templates: every construct.
func C14_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err != nil {
		vp.Fail(err.Error())
	}
	checkVisits(e)
}

// C14_bytes: arbitrary sources.
func C14_bytes() {
	mode := []string{"p", "e"}[vp.Choose(2)]
	e, err := ParseMode(mode, vp.Bytes(lenFor(3, 4)))
	if err == nil {
		checkVisits(e)
	}
}

// C14_nested: constructs in constructs.
func C14_nested() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	if e, err := ParseMode("p", nest(n)); err == nil {
		vp.Cover("accepted")
		checkVisits(e)
	}
}

var nests = []string{"[1, @]", "{ a => @ }", "x(@)", "$a[@]", "(@)", "-@", "!@", "*@", "$b + @", "@ + $b", "$b and @", "@ == $b", "$c =~ @", "$a in @", "@ ? { 1 => 2 }", "1 ? { A => @ }",
	"\"a${@}b\"", "if @ { $x }", "unless 1 { @ } else { $y }", "case @ { 1: { $z } }", "case 1 { [@]: { @ } }", "x(1) |A[@] $q = @| >> B { @ }", "$a = @", "$a.f(@)", "(@).g", "1 in @", "@ -> B[$c]", "\"${$x[@]}\""}

var nestLeaf = []string{"$v", "T", "7", "'s'", "undef"}

// nest returns a nested expression
func nest(depth int) string {
	if depth == 0 {
		return nestLeaf[vp.Choose(len(nestLeaf))]
	}
	return strings.Replace(nests[vp.Choose(len(nests))], "@", nest(depth-1), -1)
}

// C14_grammar: combinations of constructs.
func C14_grammar() {
	e, _, _ := someGram(2, 3).tree()
	checkVisits(e)
}

// C14_created: nodes that the factory creates from any parts.
func C14_created() { checkVisits(someNode()) }
