package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"

	"vpharness/vp"
)

func ntCall(name string, args ...string) string {
	s := "(" + name
	for _, a := range args {
		s += " " + a
	}
	return s + ")"
}

func ntAll(es []parser.Expression) (r []string) {
	for _, e := range es {
		r = append(r, notationOf(e))
	}
	return
}

func ntList(es ...string) string { return "[" + strings.Join(es, " ") + "]" }

// ntBlock returns the statements of a block, or the expression if it is none
func ntBlock(e parser.Expression) string {
	if b, ok := e.(*parser.BlockExpression); ok {
		return ntList(ntAll(b.Statements())...)
	}
	return ntList(notationOf(e))
}

// ntMap returns a map from alternating keys and values. Entries without a
// value are left out.
func ntMap(kvs ...string) string {
	var r []string
	for i := 0; i < len(kvs); i += 2 {
		if kvs[i+1] != "" {
			r = append(r, ":"+kvs[i]+" "+kvs[i+1])
		}
	}
	return "{" + strings.Join(r, " ") + "}"
}

func ntOpt(e parser.Expression) string {
	if e == nil {
		return ""
	}
	return notationOf(e)
}

func ntOptBlock(e parser.Expression) string {
	if e == nil || e.IsNop() {
		return ""
	}
	return ntBlock(e)
}

func ntLit(x interface{}) string { return pn.Literal(x).String() }

func ntParams(ps []parser.Expression) string {
	if len(ps) == 0 {
		return ""
	}
	var asKeys, asCalls []string
	keys := true
	for _, p := range ps {
		q := p.(*parser.Parameter)
		asKeys = append(asKeys, q.Name(), ntMap("type", ntOpt(q.Type()), "splat", ntSplat(q), "value", ntOpt(q.Value())))
		asCalls = append(asCalls, ntParam(q))
		keys = keys && isKeyName(q.Name())
	}
	if keys {
		return ntMap(asKeys...)
	}
	return ntList(asCalls...)
}

func ntSplat(p *parser.Parameter) string {
	if p.CapturesRest() {
		return "true"
	}
	return ""
}

// ntParam returns the notation of a parameter that stands alone
func ntParam(p *parser.Parameter) string {
	return ntCall("param", ntMap("name", ntLit(p.Name()), "type", ntOpt(p.Type()), "splat", ntSplat(p), "value", ntOpt(p.Value())))
}

// isKeyName tells if a name can be a key: a letter, followed by letters,
// digits, underscores, or dashes, the last of which is no dash.
func isKeyName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
		if i == 0 && !letter && c != '_' || !letter && !('0' <= c && c <= '9') && c != '_' && c != '-' {
			return false
		}
	}
	return s != "" && s[len(s)-1] != '-'
}

func ntDef(kind string, e parser.NamedDefinition, parent string, returns parser.Expression) string {
	if parent != "" {
		parent = ntLit(parent)
	}
	body := ""
	if e.Body() != nil {
		body = ntBlock(e.Body())
	}
	return ntCall(kind, ntMap("name", ntLit(e.Name()), "parent", parent, "params", ntParams(e.Parameters()), "body", body, "returns", ntOpt(returns)))
}

func ntInvoke(kind string, e parser.CallExpression, rvalue bool) string {
	name := "invoke" + kind
	if rvalue {
		name = "call" + kind
	}
	return ntCall(name, ntMap("functor", notationOf(e.Functor()), "args", ntList(ntAll(e.Arguments())...), "block", ntOpt(e.Lambda())))
}

func ntBody(e *parser.ResourceBody) string {
	return ntMap("title", notationOf(e.Title()), "ops", ntList(ntAll(e.Operations())...))
}

func ntForm(e parser.AbstractResource) string {
	if e.Form() == parser.REGULAR {
		return ""
	}
	return ntLit(string(e.Form()))
}

// notationOf writes the notation of a node from what its accessors deliver
func notationOf(e parser.Expression) string {
	switch e := e.(type) {
	case *parser.Program:
		return notationOf(e.Body())
	case *parser.AccessExpression:
		return ntCall("access", append([]string{notationOf(e.Operand())}, ntAll(e.Keys())...)...)
	case *parser.AndExpression:
		return ntCall("and", notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.OrExpression:
		return ntCall("or", notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.InExpression:
		return ntCall("in", notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.NamedAccessExpression:
		return ntCall(".", notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.ArithmeticExpression:
		return ntCall(e.Operator(), notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.AssignmentExpression:
		return ntCall(e.Operator(), notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.ComparisonExpression:
		return ntCall(e.Operator(), notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.MatchExpression:
		return ntCall(e.Operator(), notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.RelationshipExpression:
		return ntCall(e.Operator(), notationOf(e.Lhs()), notationOf(e.Rhs()))
	case *parser.AttributeOperation:
		return ntCall(e.Operator(), ntLit(e.Name()), notationOf(e.Value()))
	case *parser.AttributesOperation:
		return ntCall("splat-hash", notationOf(e.Expr()))
	case *parser.Application:
		return ntDef("application", e, "", nil)
	case *parser.HostClassDefinition:
		return ntDef("class", e, e.ParentClass(), nil)
	case *parser.ResourceTypeDefinition:
		return ntDef("define", e, "", nil)
	case *parser.PlanDefinition:
		return ntDef("plan", e, "", e.ReturnType())
	case *parser.FunctionDefinition:
		return ntDef("function", e, "", e.ReturnType())
	case *parser.BlockExpression:
		return ntCall("block", ntAll(e.Statements())...)
	case *parser.CallNamedFunctionExpression:
		return ntInvoke("", e, e.RvalRequired())
	case *parser.CallMethodExpression:
		return ntInvoke("-method", e, e.RvalRequired())
	case *parser.CapabilityMapping:
		return ntCall(e.Kind(), notationOf(e.Component()), ntList(append([]string{ntLit(e.Capability())}, ntAll(e.Mappings())...)...))
	case *parser.CaseExpression:
		return ntCall("case", notationOf(e.Test()), ntList(ntAll(e.Options())...))
	case *parser.CaseOption:
		return ntMap("when", ntList(ntAll(e.Values())...), "then", ntBlock(e.Then()))
	case *parser.CollectExpression:
		ops := ""
		if len(e.Operations()) > 0 {
			ops = ntList(ntAll(e.Operations())...)
		}
		return ntCall("collect", ntMap("type", notationOf(e.ResourceType()), "query", notationOf(e.Query()), "ops", ops))
	case *parser.ExportedQuery:
		if e.Expr().IsNop() {
			return "(exported-query)"
		}
		return ntCall("exported-query", notationOf(e.Expr()))
	case *parser.VirtualQuery:
		if e.Expr().IsNop() {
			return "(virtual-query)"
		}
		return ntCall("virtual-query", notationOf(e.Expr()))
	case *parser.ConcatenatedString:
		return ntCall("concat", ntAll(e.Segments())...)
	case *parser.EppExpression:
		return ntCall("epp", ntAll(e.Body().(*parser.BlockExpression).Statements())...)
	case *parser.SiteDefinition:
		return ntCall("site", ntAll(e.Body().(*parser.BlockExpression).Statements())...)
	case *parser.HeredocExpression:
		syntax := ""
		if e.Syntax() != "" {
			syntax = ntLit(e.Syntax())
		}
		return ntCall("heredoc", ntMap("syntax", syntax, "text", notationOf(e.Text())))
	case *parser.UnlessExpression:
		return ntCall("unless", ntMap("test", notationOf(e.Test()), "then", ntOptBlock(e.Then()), "else", ntOptBlock(e.Else())))
	case *parser.IfExpression:
		return ntCall("if", ntMap("test", notationOf(e.Test()), "then", ntOptBlock(e.Then()), "else", ntOptBlock(e.Else())))
	case *parser.KeyedEntry:
		return ntCall("=>", notationOf(e.Key()), notationOf(e.Value()))
	case *parser.SelectorEntry:
		return ntCall("=>", notationOf(e.Matching()), notationOf(e.Value()))
	case *parser.SelectorExpression:
		return ntCall("?", notationOf(e.Lhs()), ntList(ntAll(e.Selectors())...))
	case *parser.LambdaExpression:
		body := ""
		if e.Body() != nil {
			body = ntBlock(e.Body())
		}
		return ntCall("lambda", ntMap("params", ntParams(e.Parameters()), "returns", ntOpt(e.ReturnType()), "body", body))
	case *parser.LiteralBoolean:
		if e.Bool() {
			return "true"
		}
		return "false"
	case *parser.LiteralDefault:
		return "(default)"
	case *parser.LiteralFloat:
		return ntLit(e.Float())
	case *parser.LiteralInteger:
		if e.Radix() == 10 {
			return ntLit(e.Int())
		}
		return ntCall("int", ntMap("radix", ntLit(e.Radix()), "value", ntLit(e.Int())))
	case *parser.LiteralHash:
		return ntCall("hash", ntAll(e.Entries())...)
	case *parser.LiteralList:
		return ntCall("array", ntAll(e.Elements())...)
	case *parser.RenderStringExpression:
		return ntCall("render-s", ntLit(e.StringValue()))
	case *parser.LiteralString:
		return ntLit(e.StringValue())
	case *parser.LiteralUndef:
		return "nil"
	case *parser.NodeDefinition:
		body := ""
		if e.Body() != nil {
			body = ntBlock(e.Body())
		}
		return ntCall("node", ntMap("matches", ntList(ntAll(e.HostMatches())...), "parent", ntOpt(e.Parent()), "body", body))
	case *parser.Nop:
		return "(nop)"
	case *parser.NotExpression:
		return ntCall("!", notationOf(e.Expr()))
	case *parser.UnaryMinusExpression:
		return ntCall("-", notationOf(e.Expr()))
	case *parser.UnfoldExpression:
		return ntCall("unfold", notationOf(e.Expr()))
	case *parser.ParenthesizedExpression:
		return ntCall("paren", notationOf(e.Expr()))
	case *parser.RenderExpression:
		return ntCall("render", notationOf(e.Expr()))
	case *parser.TextExpression:
		return ntCall("str", notationOf(e.Expr()))
	case *parser.Parameter:
		return ntParam(e)
	case *parser.QualifiedName:
		return ntCall("qn", ntLit(e.Name()))
	case *parser.QualifiedReference:
		return ntCall("qr", ntLit(e.Name()))
	case *parser.ReservedWord:
		return ntCall("reserved", ntLit(e.Name()))
	case *parser.RegexpExpression:
		return ntCall("regexp", ntLit(e.PatternString()))
	case *parser.ResourceBody:
		return ntCall("resource-body", ntBody(e))
	case *parser.ResourceDefaultsExpression:
		return ntCall("resource-defaults", ntMap("type", notationOf(e.TypeRef()), "ops", ntList(ntAll(e.Operations())...), "form", ntForm(e)))
	case *parser.ResourceExpression:
		var bodies []string
		for _, b := range e.Bodies() {
			if r, ok := b.(*parser.ResourceBody); ok {
				bodies = append(bodies, ntBody(r))
			} else {
				bodies = append(bodies, notationOf(b))
			}
		}
		return ntCall("resource", ntMap("type", notationOf(e.TypeName()), "bodies", ntList(bodies...), "form", ntForm(e)))
	case *parser.ResourceOverrideExpression:
		return ntCall("resource-override", ntMap("resources", notationOf(e.Resources()), "ops", ntList(ntAll(e.Operations())...), "form", ntForm(e)))
	case *parser.StepExpression:
		return ntCall("step", ntMap("name", ntLit(e.Name()), "style", ntLit(string(e.Style())), "properties", ntOpt(e.Properties()), "definition", ntOpt(e.Definition())))
	case *parser.TypeAlias:
		return ntCall("type-alias", ntLit(e.Name()), notationOf(e.Type()))
	case *parser.TypeDefinition:
		return ntCall("type-definition", ntLit(e.Name()), ntLit(e.Parent()), notationOf(e.Body()))
	case *parser.TypeMapping:
		return ntCall("type-mapping", notationOf(e.Type()), notationOf(e.Mapping()))
	case *parser.VariableExpression:
		if name, ok := e.Name(); ok {
			return ntCall("var", ntLit(name))
		}
		index, _ := e.Index()
		return ntCall("var", ntLit(index))
	}
	vp.Fail("unknown kind of node")
	return ""
}

// nodeKinds returns the letters of the interfaces that a node has:
// Definition, named definition (N), binary (B), boolean (O), unary, call,
// literal value (L), number (I), query, resource
func nodeKinds(e parser.Expression) string {
	switch e.(type) {
	case *parser.Application, *parser.HostClassDefinition, *parser.ResourceTypeDefinition, *parser.PlanDefinition, *parser.FunctionDefinition:
		return "DN"
	case *parser.CapabilityMapping, *parser.NodeDefinition, *parser.SiteDefinition, *parser.StepExpression, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
		return "D"
	case *parser.AndExpression, *parser.OrExpression:
		return "BO"
	case *parser.InExpression, *parser.NamedAccessExpression, *parser.ArithmeticExpression, *parser.AssignmentExpression, *parser.ComparisonExpression, *parser.MatchExpression, *parser.RelationshipExpression:
		return "B"
	case *parser.NotExpression, *parser.UnaryMinusExpression, *parser.UnfoldExpression, *parser.ParenthesizedExpression, *parser.RenderExpression, *parser.TextExpression, *parser.VariableExpression:
		return "U"
	case *parser.CallNamedFunctionExpression, *parser.CallMethodExpression:
		return "C"
	case *parser.LiteralInteger, *parser.LiteralFloat:
		return "LI"
	case *parser.LiteralBoolean, *parser.LiteralDefault, *parser.LiteralString, *parser.RenderStringExpression, *parser.LiteralUndef, *parser.QualifiedName, *parser.QualifiedReference, *parser.RegexpExpression, *parser.ReservedWord:
		return "L"
	case *parser.ExportedQuery, *parser.VirtualQuery:
		return "Q"
	case *parser.ResourceDefaultsExpression, *parser.ResourceExpression, *parser.ResourceOverrideExpression:
		return "R"
	}
	return ""
}

// interfaces returns the letters of the interfaces that a node implements,
// and what the markers of these interfaces deliver
func interfaces(e parser.Expression) (r string, marked []parser.Expression) {
	if x, ok := e.(parser.Definition); ok {
		r, marked = r+"D", append(marked, x.ToDefinition())
	}
	if _, ok := e.(parser.NamedDefinition); ok {
		r += "N"
	}
	if _, ok := e.(parser.BinaryExpression); ok {
		r += "B"
	}
	if x, ok := e.(parser.BooleanExpression); ok {
		r, marked = r+"O", append(marked, x.ToBooleanExpression())
	}
	if x, ok := e.(parser.UnaryExpression); ok {
		r, marked = r+"U", append(marked, x.ToUnaryExpression())
	}
	if _, ok := e.(parser.CallExpression); ok {
		r += "C"
	}
	if x, ok := e.(parser.LiteralValue); ok {
		r, marked = r+"L", append(marked, x.ToLiteralValue())
	}
	if _, ok := e.(parser.LiteralNumber); ok {
		r += "I"
	}
	if x, ok := e.(parser.QueryExpression); ok {
		r, marked = r+"Q", append(marked, x.ToQueryExpression())
	}
	if _, ok := e.(parser.AbstractResource); ok {
		r += "R"
	}
	return
}

// checkAccessors asserts that what the accessors of the nodes deliver agrees
// with the notation, and with each other.
func checkAccessors(e parser.Expression) {
	got, want := e.ToPN().String(), notationOf(e)
	vp.Assert(got == want, "the parts say "+want+", the notation says "+got)
	checkValues(e)
	e.AllContents(nil, func(path []parser.Expression, c parser.Expression) { checkValues(c) })
	c := clone(e)
	cn := c.ToPN().String()
	vp.Assert(cn == got, "created as "+cn+" from the parts of "+got)
}

func checkValues(e parser.Expression) {
	_, nop := e.(*parser.Nop)
	vp.Assert(e.IsNop() == nop, e.Label()+": is no nop, or is one")
	is, marked := interfaces(e)
	vp.Assert(is == nodeKinds(e), e.Label()+" is "+is+" instead of "+nodeKinds(e))
	for _, m := range marked {
		if l, ok := m.(parser.LiteralValue); ok {
			// of references and epp text, the embedded literal
			vp.Assert(l.Value() == e.(parser.LiteralValue).Value() && l.ByteOffset() == e.ByteOffset() && l.ByteLength() == e.ByteLength(), "value of "+e.Label())
			continue
		}
		vp.Assert(m == e, e.Label()+" is another expression")
	}
	switch e := e.(type) {
	case *parser.LiteralInteger:
		vp.Assert(e.Value() == e.Int() && e.Float() == float64(e.Int()), "value of an integer")
	case *parser.LiteralFloat:
		vp.Assert(e.Value() == e.Float() && e.Int() == int64(e.Float()), "value of a float")
	case *parser.LiteralBoolean:
		vp.Assert(e.Value() == e.Bool(), "value of a boolean")
	case *parser.LiteralString:
		vp.Assert(e.Value() == e.StringValue(), "value of a string")
	case *parser.LiteralDefault:
		vp.Assert(e.Value() == parser.DefaultInstance, "value of default")
	case *parser.LiteralUndef:
		vp.Assert(e.Value() == nil, "value of undef")
	case *parser.RegexpExpression:
		vp.Assert(e.Value() == e.PatternString(), "value of a regular expression")
	case *parser.ReservedWord:
		vp.Assert(e.Value() == e.Name(), "value of a reserved word")
	case *parser.QualifiedName:
		vp.Assert(e.Value() == e.Name(), "value of a name")
		var n parser.NameExpression = e
		vp.Assert(n.Name() == e.Name(), "name of a name")
	case *parser.QualifiedReference:
		vp.Assert(e.Value() == e.Name() && e.DowncasedName() == strings.ToLower(e.Name()), "value of a reference")
		name, off := e.Name(), e.ByteOffset()
		n := e.WithName("Other::Name")
		vp.Assert(n.Name() == "Other::Name" && n.DowncasedName() == "other::name" && n.ByteOffset() == off && n.ByteLength() == e.ByteLength() && n.Locator() == e.Locator(), "reference with another name")
		vp.Assert(e.Name() == name && e.DowncasedName() == strings.ToLower(name), "a reference changes")
	case *parser.VariableExpression:
		name, isName := e.Name()
		index, isIndex := e.Index()
		vp.Assert(isName != isIndex, "a variable has either a name or an index")
		if isName {
			vp.Assert(e.NameOrIndex() == name && index == 0, "name of a variable")
			q, ok := e.Expr().(*parser.QualifiedName)
			vp.Assert(ok && q.Name() == name, "expression of a variable")
		} else {
			vp.Assert(e.NameOrIndex() == index && name == "", "index of a variable")
			q, ok := e.Expr().(*parser.LiteralInteger)
			vp.Assert(ok && q.Int() == index, "expression of a variable")
		}
	case *parser.CallNamedFunctionExpression:
		f := e.Functor()
		was := e.ToPN().String()
		n := e.WithFunctor(&parser.Nop{})
		_, ok := n.Functor().(*parser.Nop)
		vp.Assert(ok && n.RvalRequired() == e.RvalRequired() && len(n.Arguments()) == len(e.Arguments()) && n.Lambda() == e.Lambda() && n.ByteOffset() == e.ByteOffset() && n.ByteLength() == e.ByteLength() && n.Locator() == e.Locator(), "call with another functor")
		for i, a := range n.Arguments() {
			vp.Assert(a == e.Arguments()[i], "arguments with another functor")
		}
		vp.Assert(e.Functor() == f && e.ToPN().String() == was, "a call changes")
	case *parser.LiteralHash:
		var keys []string
		for _, x := range e.Entries() {
			k := x.(*parser.KeyedEntry)
			key := ""
			switch k := k.Key().(type) {
			case *parser.LiteralString:
				key = k.StringValue()
			case *parser.QualifiedName:
				key = k.Name()
			case *parser.QualifiedReference:
				key = k.Name()
			default:
				continue
			}
			if !member(key, keys) {
				vp.Assert(e.Get(key) == k.Value(), "entry of a hash")
			}
			keys = append(keys, key)
		}
		if !member("no such key", keys) {
			vp.Assert(e.Get("no such key") == nil, "missing entry of a hash")
		}
	case *parser.LambdaExpression:
		if b, ok := e.Body().(*parser.EppExpression); ok {
			vp.Assert(b.ParametersSpecified() == (e.Parameters() != nil), "parameters of a template")
		}
	}
}

func clones(es []parser.Expression) (r []parser.Expression) {
	for _, e := range es {
		r = append(r, clone(e))
	}
	return
}

func cloneOpt(e parser.Expression) parser.Expression {
	if e == nil {
		return nil
	}
	return clone(e)
}

// clone creates a node from what the accessors of another deliver
func clone(e parser.Expression) parser.Expression {
	c := cloneNode(parser.DefaultFactory(), e, e.Locator(), e.ByteOffset(), e.ByteLength())
	vp.Assert(c.Label() == e.Label(), e.Label()+" is created as "+c.Label())
	vp.Assert(c.ByteOffset() == e.ByteOffset() && c.ByteLength() == e.ByteLength() && c.Locator() == e.Locator(), e.Label()+" is created elsewhere")
	return c
}

func cloneNode(f parser.ExpressionFactory, e parser.Expression, l *parser.Locator, o, n int) parser.Expression {
	switch e := e.(type) {
	case *parser.Program:
		p := f.Program(clone(e.Body()), e.Definitions(), l, o, n)
		vp.Assert(len(p.(*parser.Program).Definitions()) == len(e.Definitions()), "definitions of a program")
		return p
	case *parser.AccessExpression:
		return f.Access(clone(e.Operand()), clones(e.Keys()), l, o, n)
	case *parser.AndExpression:
		return f.And(clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.OrExpression:
		return f.Or(clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.InExpression:
		return f.In(clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.NamedAccessExpression:
		return f.NamedAccess(clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.ArithmeticExpression:
		return f.Arithmetic(e.Operator(), clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.AssignmentExpression:
		return f.Assignment(e.Operator(), clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.ComparisonExpression:
		return f.Comparison(e.Operator(), clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.MatchExpression:
		return f.Match(e.Operator(), clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.RelationshipExpression:
		return f.RelOp(e.Operator(), clone(e.Lhs()), clone(e.Rhs()), l, o, n)
	case *parser.AttributeOperation:
		return f.AttributeOp(e.Operator(), e.Name(), clone(e.Value()), l, o, n)
	case *parser.AttributesOperation:
		return f.AttributesOp(clone(e.Expr()), l, o, n)
	case *parser.Application:
		return f.Application(e.Name(), clones(e.Parameters()), cloneOpt(e.Body()), l, o, n)
	case *parser.HostClassDefinition:
		return f.Class(e.Name(), clones(e.Parameters()), e.ParentClass(), cloneOpt(e.Body()), l, o, n)
	case *parser.ResourceTypeDefinition:
		return f.Definition(e.Name(), clones(e.Parameters()), cloneOpt(e.Body()), l, o, n)
	case *parser.PlanDefinition:
		return f.Plan(e.Name(), clones(e.Parameters()), cloneOpt(e.Body()), cloneOpt(e.ReturnType()), l, o, n)
	case *parser.FunctionDefinition:
		return f.Function(e.Name(), clones(e.Parameters()), cloneOpt(e.Body()), cloneOpt(e.ReturnType()), l, o, n)
	case *parser.BlockExpression:
		return f.Block(clones(e.Statements()), l, o, n)
	case *parser.CallNamedFunctionExpression:
		return f.CallNamed(clone(e.Functor()), e.RvalRequired(), clones(e.Arguments()), cloneOpt(e.Lambda()), l, o, n)
	case *parser.CallMethodExpression:
		vp.Assert(e.RvalRequired(), "a method call is a value")
		return f.CallMethod(clone(e.Functor()), clones(e.Arguments()), cloneOpt(e.Lambda()), l, o, n)
	case *parser.CapabilityMapping:
		return f.CapabilityMapping(e.Kind(), clone(e.Component()), e.Capability(), clones(e.Mappings()), l, o, n)
	case *parser.CaseExpression:
		return f.Case(clone(e.Test()), clones(e.Options()), l, o, n)
	case *parser.CaseOption:
		return f.When(clones(e.Values()), clone(e.Then()), l, o, n)
	case *parser.CollectExpression:
		return f.Collect(clone(e.ResourceType()), clone(e.Query()), clones(e.Operations()), l, o, n)
	case *parser.ExportedQuery:
		return f.ExportedQuery(clone(e.Expr()), l, o, n)
	case *parser.VirtualQuery:
		return f.VirtualQuery(clone(e.Expr()), l, o, n)
	case *parser.ConcatenatedString:
		return f.ConcatenatedString(clones(e.Segments()), l, o, n)
	case *parser.SiteDefinition:
		return f.Site(clone(e.Body()), l, o, n)
	case *parser.HeredocExpression:
		return f.Heredoc(clone(e.Text()), e.Syntax(), l, o, n)
	case *parser.UnlessExpression:
		return f.Unless(clone(e.Test()), clone(e.Then()), clone(e.Else()), l, o, n)
	case *parser.IfExpression:
		return f.If(clone(e.Test()), clone(e.Then()), clone(e.Else()), l, o, n)
	case *parser.KeyedEntry:
		return f.KeyedEntry(clone(e.Key()), clone(e.Value()), l, o, n)
	case *parser.SelectorEntry:
		return f.Selector(clone(e.Matching()), clone(e.Value()), l, o, n)
	case *parser.SelectorExpression:
		return f.Select(clone(e.Lhs()), clones(e.Selectors()), l, o, n)
	case *parser.LambdaExpression:
		if b, ok := e.Body().(*parser.EppExpression); ok {
			ps := clones(e.Parameters())
			if b.ParametersSpecified() && ps == nil {
				ps = []parser.Expression{}
			}
			c := f.EppExpression(ps, clone(b.Body()), l, o, n)
			d, ok := c.(*parser.LambdaExpression).Body().(*parser.EppExpression)
			vp.Assert(ok && d.ParametersSpecified() == b.ParametersSpecified() && d.ByteOffset() == o && d.ByteLength() == n, "created template")
			return c
		}
		return f.Lambda(clones(e.Parameters()), cloneOpt(e.Body()), cloneOpt(e.ReturnType()), l, o, n)
	case *parser.LiteralBoolean:
		return f.Boolean(e.Bool(), l, o, n)
	case *parser.LiteralDefault:
		return f.Default(l, o, n)
	case *parser.LiteralFloat:
		return f.Float(e.Float(), l, o, n)
	case *parser.LiteralInteger:
		return f.Integer(e.Int(), e.Radix(), l, o, n)
	case *parser.LiteralHash:
		return f.Hash(clones(e.Entries()), l, o, n)
	case *parser.LiteralList:
		return f.Array(clones(e.Elements()), l, o, n)
	case *parser.RenderStringExpression:
		return f.RenderString(e.StringValue(), l, o, n)
	case *parser.LiteralString:
		return f.String(e.StringValue(), l, o, n)
	case *parser.LiteralUndef:
		return f.Undef(l, o, n)
	case *parser.NodeDefinition:
		return f.Node(clones(e.HostMatches()), cloneOpt(e.Parent()), cloneOpt(e.Body()), l, o, n)
	case *parser.Nop:
		return f.Nop(l, o, n)
	case *parser.NotExpression:
		return f.Not(clone(e.Expr()), l, o, n)
	case *parser.UnaryMinusExpression:
		return f.Negate(clone(e.Expr()), l, o, n)
	case *parser.UnfoldExpression:
		return f.Unfold(clone(e.Expr()), l, o, n)
	case *parser.ParenthesizedExpression:
		return f.Parenthesized(clone(e.Expr()), l, o, n)
	case *parser.RenderExpression:
		return f.RenderExpression(clone(e.Expr()), l, o, n)
	case *parser.TextExpression:
		return f.Text(clone(e.Expr()), l, o, n)
	case *parser.Parameter:
		return f.Parameter(e.Name(), cloneOpt(e.Value()), cloneOpt(e.Type()), e.CapturesRest(), l, o, n)
	case *parser.QualifiedName:
		return f.QualifiedName(e.Name(), l, o, n)
	case *parser.QualifiedReference:
		return f.QualifiedReference(e.Name(), l, o, n)
	case *parser.ReservedWord:
		return f.ReservedWord(e.Name(), e.Future(), l, o, n)
	case *parser.RegexpExpression:
		return f.Regexp(e.PatternString(), l, o, n)
	case *parser.ResourceBody:
		return f.ResourceBody(clone(e.Title()), clones(e.Operations()), l, o, n)
	case *parser.ResourceDefaultsExpression:
		return f.ResourceDefaults(e.Form(), clone(e.TypeRef()), clones(e.Operations()), l, o, n)
	case *parser.ResourceExpression:
		return f.Resource(e.Form(), clone(e.TypeName()), clones(e.Bodies()), l, o, n)
	case *parser.ResourceOverrideExpression:
		return f.ResourceOverride(e.Form(), clone(e.Resources()), clones(e.Operations()), l, o, n)
	case *parser.StepExpression:
		return f.Step(e.Name(), e.Style(), cloneOpt(e.Properties()), cloneOpt(e.Definition()), l, o, n)
	case *parser.TypeAlias:
		return f.TypeAlias(e.Name(), clone(e.Type()), l, o, n)
	case *parser.TypeDefinition:
		return f.TypeDefinition(e.Name(), e.Parent(), clone(e.Body()), l, o, n)
	case *parser.TypeMapping:
		return f.TypeMapping(clone(e.Type()), clone(e.Mapping()), l, o, n)
	case *parser.VariableExpression:
		return f.Variable(clone(e.Expr()), l, o, n)
	}
	vp.Fail("unknown kind of node")
	return nil
}

// C28_templates: every construct, with arbitrary names and numbers.
func C28_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err != nil {
		vp.Fail(err.Error())
	}
	checkAccessors(e)
}

// C28_bytes: arbitrary sources.
func C28_bytes() {
	mode := []string{"p", "e"}[vp.Choose(2)]
	e, err := ParseMode(mode, vp.Bytes(lenFor(2, 3)))
	if err == nil {
		checkAccessors(e)
	}
}

// C28_nested: constructs in constructs.
func C28_nested() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	if e, err := ParseMode("p", nest(n)); err == nil {
		vp.Cover("accepted")
		checkAccessors(e)
	}
}

// C28_grammar: combinations of constructs.
func C28_grammar() {
	e, _, _ := someGram(2, 3).tree()
	checkAccessors(e)
}

// C28_hash: looking up arbitrary keys in hashes.
func C28_hash() {
	forms := []string{"^ => ", "'^' => ", "\"^\" => ", "A^ => "}
	name := func() string {
		return string([]byte{vp.ByteOf("abc"), vp.ByteOf("ab_1")}[:1+vp.Choose(2)])
	}
	type entry struct{ key, value string }
	var es []entry
	src := "{"
	for i := 0; i < 3; i++ {
		f, k := forms[vp.Choose(len(forms))], name()
		src += strings.Replace(f, "^", k, 1) + itoa(i) + ", "
		if f[0] == 'A' {
			k = "A" + k
		}
		es = append(es, entry{k, itoa(i)})
		if i == 1 && !vp.Thorough() {
			break
		}
	}
	src += "7 => 8, [a] => 9, undef => 10 }"
	e, err := parser.CreateParser().Parse("f.pp", "$x = "+src, true)
	if err != nil {
		vp.Fail(err.Error() + " in " + src)
	}
	h := e.(*parser.AssignmentExpression).Rhs().(*parser.LiteralHash)
	k := name()
	if vp.Bool() {
		k = "A" + k
	}
	v := h.Get(k)
	for _, x := range es {
		if x.key == k {
			vp.Cover("found")
			vp.Assert(v != nil && v.String() == x.value, "wrong value of "+k+" in "+src)
			return
		}
	}
	vp.Assert(v == nil, "value of missing key "+k+" in "+src)
}

// C28_names: references with another name.
func C28_names() {
	name := vp.BytesOf("AbZ:_0", lenFor(4, 6))
	was := []string{"A", "Ab", "A_b", "A::B", "A1::Bc"}[vp.Choose(5)]
	e, err := parser.CreateParser().Parse("f.pp", was, true)
	if err != nil {
		vp.Fail(err.Error())
	}
	r := e.(*parser.QualifiedReference)
	n := r.WithName(name)
	vp.Assert(n.Name() == name && n.DowncasedName() == strings.ToLower(name) && n.Value() == name, "name of "+name)
	vp.Assert(n.ToPN().String() == "(qr "+ntLit(name)+")", "notation of "+name)
	vp.Assert(r.Name() == was && r.DowncasedName() == strings.ToLower(was), "a reference changes")
}

// C28_numbers: numbers have the same value in all forms.
func C28_numbers() {
	i := int64(vp.Int(-1<<62, 1<<62))
	radix := []int{8, 10, 16}[vp.Choose(3)]
	f := parser.DefaultFactory()
	l := parser.NewLocator("f", "1")
	e := f.Integer(i, radix, l, 0, 1).(*parser.LiteralInteger)
	vp.Assert(e.Int() == i && e.Value() == i && e.Radix() == radix && e.Float() == float64(i), "value of an integer")
	v := f.Variable(e, l, 0, 1).(*parser.VariableExpression)
	x, ok := v.Index()
	_, named := v.Name()
	vp.Assert(ok && !named && x == i && v.NameOrIndex() == i, "index of a variable")
	n := vp.Choose(50) - 25
	d := f.Float(float64(n)/4, l, 0, 1).(*parser.LiteralFloat)
	vp.Assert(d.Int() == int64(n/4) && d.Value() == d.Float() && d.Float() == float64(n)/4, "value of a float")
}

// partsOf creates the parts of a node, each at its own place
type partsOf struct {
	l *parser.Locator
	n int
}

func (p *partsOf) exp() parser.Expression {
	p.n++
	return parser.DefaultFactory().Integer(int64(p.n), 10, p.l, p.n, 1)
}

func (p *partsOf) opt() parser.Expression {
	if vp.Bool() {
		return p.exp()
	}
	return nil
}

func (p *partsOf) optNop() parser.Expression {
	if vp.Bool() {
		return p.exp()
	}
	p.n++
	return parser.DefaultFactory().Nop(p.l, p.n, 0)
}

func (p *partsOf) list() (r []parser.Expression) {
	for n := vp.Choose(3); n > 0; n-- {
		r = append(r, p.exp())
	}
	return
}

func (p *partsOf) entries() (r []parser.Expression) {
	for n := vp.Choose(3); n > 0; n-- {
		r = append(r, parser.DefaultFactory().KeyedEntry(p.exp(), p.exp(), p.l, p.n, 1))
	}
	return
}

func (p *partsOf) params() (r []parser.Expression) {
	for n := vp.Choose(3); n > 0; n-- {
		r = append(r, parser.DefaultFactory().Parameter(p.name(), p.opt(), p.opt(), vp.Bool(), p.l, p.n, 1))
	}
	return
}

func (p *partsOf) block() parser.Expression {
	return parser.DefaultFactory().Block(p.list(), p.l, p.n, 1)
}

func (p *partsOf) variable() parser.Expression {
	if vp.Bool() {
		return p.exp()
	}
	return parser.DefaultFactory().QualifiedName(p.name(), p.l, p.n, 1)
}

func (p *partsOf) name() string {
	p.n++
	return "n" + itoa(p.n)
}

func (p *partsOf) text() string {
	if vp.Bool() {
		return p.name()
	}
	return ""
}

func (p *partsOf) flag() bool { return vp.Bool() }

func (p *partsOf) form() parser.ResourceForm {
	return []parser.ResourceForm{parser.REGULAR, parser.VIRTUAL, parser.EXPORTED}[vp.Choose(3)]
}

func (p *partsOf) style() parser.StepStyle {
	return []parser.StepStyle{parser.StepStyleAction, parser.StepStyleResource, parser.StepStyleWorkflow, parser.StepStyleStateHandler}[vp.Choose(4)]
}

func sameList(a, b []parser.Expression, what string) {
	vp.Assert(len(a) == len(b), what)
	for i := range a {
		vp.Assert(a[i] == b[i], what)
	}
}

// someNode creates any node with any parts
func someNode() parser.Expression {
	l := parser.NewLocator("f.pp", strings.Repeat("abc\n", 20))
	o, n := vp.Int(0, 60), vp.Int(0, 10)
	e := creations[vp.Choose(len(creations))](&partsOf{l, 0}, l, o, n)
	vp.Assert(e.Locator() == l && e.ByteOffset() == o && e.ByteLength() == n, "place of "+e.Label())
	return e
}

// C28_created: nodes that the factory creates from any parts.
func C28_created() { checkAccessors(someNode()) }
