package h

// Generated by tools/gen/factory.py.

import (
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// creations create a node of each kind with the factory, and assert that its
// accessors deliver what it was created from.
var creations = []func(p *partsOf, l *parser.Locator, o, n int) parser.Expression{
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.list()
		e := parser.DefaultFactory().Access(a0, a1, l, o, n).(*parser.AccessExpression)
		vp.Assert(e.Operand() == a0, "Operand")
		sameList(e.Keys(), a1, "Keys")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().And(a0, a1, l, o, n).(*parser.AndExpression)
		vp.Assert(e.Lhs() == a0, "Lhs")
		vp.Assert(e.Rhs() == a1, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().Or(a0, a1, l, o, n).(*parser.OrExpression)
		vp.Assert(e.Lhs() == a0, "Lhs")
		vp.Assert(e.Rhs() == a1, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().In(a0, a1, l, o, n).(*parser.InExpression)
		vp.Assert(e.Lhs() == a0, "Lhs")
		vp.Assert(e.Rhs() == a1, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().NamedAccess(a0, a1, l, o, n).(*parser.NamedAccessExpression)
		vp.Assert(e.Lhs() == a0, "Lhs")
		vp.Assert(e.Rhs() == a1, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.exp()
		e := parser.DefaultFactory().Arithmetic(a0, a1, a2, l, o, n).(*parser.ArithmeticExpression)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Lhs() == a1, "Lhs")
		vp.Assert(e.Rhs() == a2, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.exp()
		e := parser.DefaultFactory().Assignment(a0, a1, a2, l, o, n).(*parser.AssignmentExpression)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Lhs() == a1, "Lhs")
		vp.Assert(e.Rhs() == a2, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.exp()
		e := parser.DefaultFactory().Comparison(a0, a1, a2, l, o, n).(*parser.ComparisonExpression)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Lhs() == a1, "Lhs")
		vp.Assert(e.Rhs() == a2, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.exp()
		e := parser.DefaultFactory().Match(a0, a1, a2, l, o, n).(*parser.MatchExpression)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Lhs() == a1, "Lhs")
		vp.Assert(e.Rhs() == a2, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.exp()
		e := parser.DefaultFactory().RelOp(a0, a1, a2, l, o, n).(*parser.RelationshipExpression)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Lhs() == a1, "Lhs")
		vp.Assert(e.Rhs() == a2, "Rhs")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.name()
		a2 := p.exp()
		e := parser.DefaultFactory().AttributeOp(a0, a1, a2, l, o, n).(*parser.AttributeOperation)
		vp.Assert(e.Operator() == a0, "Operator")
		vp.Assert(e.Name() == a1, "Name")
		vp.Assert(e.Value() == a2, "Value")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().AttributesOp(a0, l, o, n).(*parser.AttributesOperation)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.params()
		a2 := p.opt()
		e := parser.DefaultFactory().Application(a0, a1, a2, l, o, n).(*parser.Application)
		vp.Assert(e.Name() == a0, "Name")
		sameList(e.Parameters(), a1, "Parameters")
		vp.Assert(e.Body() == a2, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.params()
		a2 := p.text()
		a3 := p.opt()
		e := parser.DefaultFactory().Class(a0, a1, a2, a3, l, o, n).(*parser.HostClassDefinition)
		vp.Assert(e.Name() == a0, "Name")
		sameList(e.Parameters(), a1, "Parameters")
		vp.Assert(e.ParentClass() == a2, "ParentClass")
		vp.Assert(e.Body() == a3, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.params()
		a2 := p.opt()
		e := parser.DefaultFactory().Definition(a0, a1, a2, l, o, n).(*parser.ResourceTypeDefinition)
		vp.Assert(e.Name() == a0, "Name")
		sameList(e.Parameters(), a1, "Parameters")
		vp.Assert(e.Body() == a2, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.params()
		a2 := p.opt()
		a3 := p.opt()
		e := parser.DefaultFactory().Plan(a0, a1, a2, a3, l, o, n).(*parser.PlanDefinition)
		vp.Assert(e.Name() == a0, "Name")
		sameList(e.Parameters(), a1, "Parameters")
		vp.Assert(e.Body() == a2, "Body")
		vp.Assert(e.ReturnType() == a3, "ReturnType")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.params()
		a2 := p.opt()
		a3 := p.opt()
		e := parser.DefaultFactory().Function(a0, a1, a2, a3, l, o, n).(*parser.FunctionDefinition)
		vp.Assert(e.Name() == a0, "Name")
		sameList(e.Parameters(), a1, "Parameters")
		vp.Assert(e.Body() == a2, "Body")
		vp.Assert(e.ReturnType() == a3, "ReturnType")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.list()
		e := parser.DefaultFactory().Block(a0, l, o, n).(*parser.BlockExpression)
		sameList(e.Statements(), a0, "Statements")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.flag()
		a2 := p.list()
		a3 := p.opt()
		e := parser.DefaultFactory().CallNamed(a0, a1, a2, a3, l, o, n).(*parser.CallNamedFunctionExpression)
		vp.Assert(e.Functor() == a0, "Functor")
		vp.Assert(e.RvalRequired() == a1, "RvalRequired")
		sameList(e.Arguments(), a2, "Arguments")
		vp.Assert(e.Lambda() == a3, "Lambda")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.list()
		a2 := p.opt()
		e := parser.DefaultFactory().CallMethod(a0, a1, a2, l, o, n).(*parser.CallMethodExpression)
		vp.Assert(e.Functor() == a0, "Functor")
		sameList(e.Arguments(), a1, "Arguments")
		vp.Assert(e.Lambda() == a2, "Lambda")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		a2 := p.name()
		a3 := p.list()
		e := parser.DefaultFactory().CapabilityMapping(a0, a1, a2, a3, l, o, n).(*parser.CapabilityMapping)
		vp.Assert(e.Kind() == a0, "Kind")
		vp.Assert(e.Component() == a1, "Component")
		vp.Assert(e.Capability() == a2, "Capability")
		sameList(e.Mappings(), a3, "Mappings")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.list()
		e := parser.DefaultFactory().Case(a0, a1, l, o, n).(*parser.CaseExpression)
		vp.Assert(e.Test() == a0, "Test")
		sameList(e.Options(), a1, "Options")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.list()
		a1 := p.exp()
		e := parser.DefaultFactory().When(a0, a1, l, o, n).(*parser.CaseOption)
		sameList(e.Values(), a0, "Values")
		vp.Assert(e.Then() == a1, "Then")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		a2 := p.list()
		e := parser.DefaultFactory().Collect(a0, a1, a2, l, o, n).(*parser.CollectExpression)
		vp.Assert(e.ResourceType() == a0, "ResourceType")
		vp.Assert(e.Query() == a1, "Query")
		sameList(e.Operations(), a2, "Operations")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.optNop()
		e := parser.DefaultFactory().ExportedQuery(a0, l, o, n).(*parser.ExportedQuery)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.optNop()
		e := parser.DefaultFactory().VirtualQuery(a0, l, o, n).(*parser.VirtualQuery)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.list()
		e := parser.DefaultFactory().ConcatenatedString(a0, l, o, n).(*parser.ConcatenatedString)
		sameList(e.Segments(), a0, "Segments")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.block()
		e := parser.DefaultFactory().Site(a0, l, o, n).(*parser.SiteDefinition)
		vp.Assert(e.Body() == a0, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.text()
		e := parser.DefaultFactory().Heredoc(a0, a1, l, o, n).(*parser.HeredocExpression)
		vp.Assert(e.Text() == a0, "Text")
		vp.Assert(e.Syntax() == a1, "Syntax")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.optNop()
		a2 := p.optNop()
		e := parser.DefaultFactory().Unless(a0, a1, a2, l, o, n).(*parser.UnlessExpression)
		vp.Assert(e.Test() == a0, "Test")
		vp.Assert(e.Then() == a1, "Then")
		vp.Assert(e.Else() == a2, "Else")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.optNop()
		a2 := p.optNop()
		e := parser.DefaultFactory().If(a0, a1, a2, l, o, n).(*parser.IfExpression)
		vp.Assert(e.Test() == a0, "Test")
		vp.Assert(e.Then() == a1, "Then")
		vp.Assert(e.Else() == a2, "Else")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().KeyedEntry(a0, a1, l, o, n).(*parser.KeyedEntry)
		vp.Assert(e.Key() == a0, "Key")
		vp.Assert(e.Value() == a1, "Value")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().Selector(a0, a1, l, o, n).(*parser.SelectorEntry)
		vp.Assert(e.Matching() == a0, "Matching")
		vp.Assert(e.Value() == a1, "Value")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.list()
		e := parser.DefaultFactory().Select(a0, a1, l, o, n).(*parser.SelectorExpression)
		vp.Assert(e.Lhs() == a0, "Lhs")
		sameList(e.Selectors(), a1, "Selectors")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.params()
		a1 := p.opt()
		a2 := p.opt()
		e := parser.DefaultFactory().Lambda(a0, a1, a2, l, o, n).(*parser.LambdaExpression)
		sameList(e.Parameters(), a0, "Parameters")
		vp.Assert(e.Body() == a1, "Body")
		vp.Assert(e.ReturnType() == a2, "ReturnType")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.entries()
		e := parser.DefaultFactory().Hash(a0, l, o, n).(*parser.LiteralHash)
		sameList(e.Entries(), a0, "Entries")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.list()
		e := parser.DefaultFactory().Array(a0, l, o, n).(*parser.LiteralList)
		sameList(e.Elements(), a0, "Elements")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.text()
		e := parser.DefaultFactory().RenderString(a0, l, o, n).(*parser.RenderStringExpression)
		vp.Assert(e.StringValue() == a0, "StringValue")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.text()
		e := parser.DefaultFactory().String(a0, l, o, n).(*parser.LiteralString)
		vp.Assert(e.StringValue() == a0, "StringValue")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.list()
		a1 := p.opt()
		a2 := p.opt()
		e := parser.DefaultFactory().Node(a0, a1, a2, l, o, n).(*parser.NodeDefinition)
		sameList(e.HostMatches(), a0, "HostMatches")
		vp.Assert(e.Parent() == a1, "Parent")
		vp.Assert(e.Body() == a2, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().Not(a0, l, o, n).(*parser.NotExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().Negate(a0, l, o, n).(*parser.UnaryMinusExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().Unfold(a0, l, o, n).(*parser.UnfoldExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().Parenthesized(a0, l, o, n).(*parser.ParenthesizedExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().RenderExpression(a0, l, o, n).(*parser.RenderExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		e := parser.DefaultFactory().Text(a0, l, o, n).(*parser.TextExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.opt()
		a2 := p.opt()
		a3 := p.flag()
		e := parser.DefaultFactory().Parameter(a0, a1, a2, a3, l, o, n).(*parser.Parameter)
		vp.Assert(e.Name() == a0, "Name")
		vp.Assert(e.Value() == a1, "Value")
		vp.Assert(e.Type() == a2, "Type")
		vp.Assert(e.CapturesRest() == a3, "CapturesRest")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		e := parser.DefaultFactory().QualifiedName(a0, l, o, n).(*parser.QualifiedName)
		vp.Assert(e.Name() == a0, "Name")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		e := parser.DefaultFactory().QualifiedReference(a0, l, o, n).(*parser.QualifiedReference)
		vp.Assert(e.Name() == a0, "Name")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.flag()
		e := parser.DefaultFactory().ReservedWord(a0, a1, l, o, n).(*parser.ReservedWord)
		vp.Assert(e.Name() == a0, "Name")
		vp.Assert(e.Future() == a1, "Future")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.text()
		e := parser.DefaultFactory().Regexp(a0, l, o, n).(*parser.RegexpExpression)
		vp.Assert(e.PatternString() == a0, "PatternString")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.flag()
		e := parser.DefaultFactory().Boolean(a0, l, o, n).(*parser.LiteralBoolean)
		vp.Assert(e.Bool() == a0, "Bool")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.list()
		e := parser.DefaultFactory().ResourceBody(a0, a1, l, o, n).(*parser.ResourceBody)
		vp.Assert(e.Title() == a0, "Title")
		sameList(e.Operations(), a1, "Operations")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.form()
		a1 := p.exp()
		a2 := p.list()
		e := parser.DefaultFactory().ResourceDefaults(a0, a1, a2, l, o, n).(*parser.ResourceDefaultsExpression)
		vp.Assert(e.Form() == a0, "Form")
		vp.Assert(e.TypeRef() == a1, "TypeRef")
		sameList(e.Operations(), a2, "Operations")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.form()
		a1 := p.exp()
		a2 := p.list()
		e := parser.DefaultFactory().Resource(a0, a1, a2, l, o, n).(*parser.ResourceExpression)
		vp.Assert(e.Form() == a0, "Form")
		vp.Assert(e.TypeName() == a1, "TypeName")
		sameList(e.Bodies(), a2, "Bodies")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.form()
		a1 := p.exp()
		a2 := p.list()
		e := parser.DefaultFactory().ResourceOverride(a0, a1, a2, l, o, n).(*parser.ResourceOverrideExpression)
		vp.Assert(e.Form() == a0, "Form")
		vp.Assert(e.Resources() == a1, "Resources")
		sameList(e.Operations(), a2, "Operations")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.style()
		a2 := p.opt()
		a3 := p.opt()
		e := parser.DefaultFactory().Step(a0, a1, a2, a3, l, o, n).(*parser.StepExpression)
		vp.Assert(e.Name() == a0, "Name")
		vp.Assert(e.Style() == a1, "Style")
		vp.Assert(e.Properties() == a2, "Properties")
		vp.Assert(e.Definition() == a3, "Definition")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.exp()
		e := parser.DefaultFactory().TypeAlias(a0, a1, l, o, n).(*parser.TypeAlias)
		vp.Assert(e.Name() == a0, "Name")
		vp.Assert(e.Type() == a1, "Type")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.name()
		a1 := p.text()
		a2 := p.exp()
		e := parser.DefaultFactory().TypeDefinition(a0, a1, a2, l, o, n).(*parser.TypeDefinition)
		vp.Assert(e.Name() == a0, "Name")
		vp.Assert(e.Parent() == a1, "Parent")
		vp.Assert(e.Body() == a2, "Body")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.exp()
		a1 := p.exp()
		e := parser.DefaultFactory().TypeMapping(a0, a1, l, o, n).(*parser.TypeMapping)
		vp.Assert(e.Type() == a0, "Type")
		vp.Assert(e.Mapping() == a1, "Mapping")
		return e
	},
	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {
		a0 := p.variable()
		e := parser.DefaultFactory().Variable(a0, l, o, n).(*parser.VariableExpression)
		vp.Assert(e.Expr() == a0, "Expr")
		return e
	},
}
