# kind: (go type, factory call, [(accessor, arg)])
# args: e=expression o=optional (nil) n=optional (nop) l=list s=name b=bool f=form
T='''
AccessExpression Access e:Operand l:Keys
AndExpression And e:Lhs e:Rhs
OrExpression Or e:Lhs e:Rhs
InExpression In e:Lhs e:Rhs
NamedAccessExpression NamedAccess e:Lhs e:Rhs
ArithmeticExpression Arithmetic s:Operator e:Lhs e:Rhs
AssignmentExpression Assignment s:Operator e:Lhs e:Rhs
ComparisonExpression Comparison s:Operator e:Lhs e:Rhs
MatchExpression Match s:Operator e:Lhs e:Rhs
RelationshipExpression RelOp s:Operator e:Lhs e:Rhs
AttributeOperation AttributeOp s:Operator s:Name e:Value
AttributesOperation AttributesOp e:Expr
Application Application s:Name p:Parameters o:Body
HostClassDefinition Class s:Name p:Parameters z:ParentClass o:Body
ResourceTypeDefinition Definition s:Name p:Parameters o:Body
PlanDefinition Plan s:Name p:Parameters o:Body o:ReturnType
FunctionDefinition Function s:Name p:Parameters o:Body o:ReturnType
BlockExpression Block l:Statements
CallNamedFunctionExpression CallNamed e:Functor b:RvalRequired l:Arguments o:Lambda
CallMethodExpression CallMethod e:Functor l:Arguments o:Lambda
CapabilityMapping CapabilityMapping s:Kind e:Component s:Capability l:Mappings
CaseExpression Case e:Test l:Options
CaseOption When l:Values e:Then
CollectExpression Collect e:ResourceType e:Query l:Operations
ExportedQuery ExportedQuery n:Expr
VirtualQuery VirtualQuery n:Expr
ConcatenatedString ConcatenatedString l:Segments
SiteDefinition Site k:Body
HeredocExpression Heredoc e:Text z:Syntax
UnlessExpression Unless e:Test n:Then n:Else
IfExpression If e:Test n:Then n:Else
KeyedEntry KeyedEntry e:Key e:Value
SelectorEntry Selector e:Matching e:Value
SelectorExpression Select e:Lhs l:Selectors
LambdaExpression Lambda p:Parameters o:Body o:ReturnType
LiteralHash Hash h:Entries
LiteralList Array l:Elements
RenderStringExpression RenderString z:StringValue
LiteralString String z:StringValue
NodeDefinition Node l:HostMatches o:Parent o:Body
NotExpression Not e:Expr
UnaryMinusExpression Negate e:Expr
UnfoldExpression Unfold e:Expr
ParenthesizedExpression Parenthesized e:Expr
RenderExpression RenderExpression e:Expr
TextExpression Text e:Expr
Parameter Parameter s:Name o:Value o:Type b:CapturesRest
QualifiedName QualifiedName s:Name
QualifiedReference QualifiedReference s:Name
ReservedWord ReservedWord s:Name b:Future
RegexpExpression Regexp z:PatternString
LiteralBoolean Boolean b:Bool
ResourceBody ResourceBody e:Title l:Operations
ResourceDefaultsExpression ResourceDefaults f:Form e:TypeRef l:Operations
ResourceExpression Resource f:Form e:TypeName l:Bodies
ResourceOverrideExpression ResourceOverride f:Form e:Resources l:Operations
StepExpression Step s:Name t:Style o:Properties o:Definition
TypeAlias TypeAlias s:Name e:Type
TypeDefinition TypeDefinition s:Name z:Parent e:Body
TypeMapping TypeMapping e:Type e:Mapping
VariableExpression Variable v:Expr
'''
out='''package h

// Generated by tools/gen/factory.py.

import (
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// creations create a node of each kind with the factory, and assert that its
// accessors deliver what it was created from.
var creations = []func(p *partsOf, l *parser.Locator, o, n int) parser.Expression{
'''
M=dict(e='exp',o='opt',n='optNop',l='list',p='params',s='name',z='text',b='flag',f='form',k='block',h='entries',t='style',v='variable')
for line in T.strip().split('\n'):
    t,fn,*a=line.split()
    out+='	func(p *partsOf, l *parser.Locator, o, n int) parser.Expression {\n'
    args=[]
    for i,x in enumerate(a):
        k,acc=x.split(':')
        out+='		a%d := p.%s()\n'%(i,M[k]); args.append('a%d'%i)
    out+='		e := parser.DefaultFactory().%s(%s, l, o, n).(*parser.%s)\n'%(fn,', '.join(args),t)
    for i,x in enumerate(a):
        k,acc=x.split(':')
        if k in 'lph':
            out+='		sameList(e.%s(), a%d, "%s")\n'%(acc,i,acc)
        else:
            out+='		vp.Assert(e.%s() == a%d, "%s")\n'%(acc,i,acc)
    out+='		return e\n	},\n'
out+='}\n'
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../../harness/h/factory_gen.go','w').write(out)
