package h

import (
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

// offsetOf returns the offset of a line and a position
func offsetOf(s string, line, pos int) int {
	off := 0
	for ; line > 1; line-- {
		k := strings.IndexByte(s[off:], '\n')
		if k < 0 {
			return -1
		}
		off += k + 1
	}
	for ; pos > 1; pos-- {
		if off >= len(s) {
			return -1
		}
		_, n := utf8.DecodeRuneInString(s[off:])
		off += n
	}
	return off
}

// tokenNames returns the possible names of the token at an offset
func tokenNames(s string, off int) []string {
	r := s[off:]
	if r == "" {
		return []string{"EOF"}
	}
	c, _ := utf8.DecodeRuneInString(r)
	names := []string{string(c)}
	switch {
	case strings.HasPrefix(r, "<%="), strings.HasPrefix(r, "-%>"):
		names = append(names, r[:3])
	case strings.HasPrefix(r, "%>"):
		names = append(names, r[:2])
	case strings.HasPrefix(r, "@("):
		names = append(names, "heredoc")
	case r[0] == '"':
		if hasByte(r, '$') {
			names = append(names, "dq string literal")
		}
		names = append(names, "string literal")
	case r[0] == '`':
		names = append(names, "string literal")
	case strings.HasPrefix(r, "plan"):
		names = append(names, "plan")
	}
	if t := scan(r)[0]; t.at == 0 && t.name != "?" {
		if t.name == "regexp" {
			names = append(names, "/")
		}
		names = append(names, t.name)
	}
	return names
}

// spelled returns a token of a name
func spelled(name string) string {
	switch name {
	case "identifier":
		return "a"
	case "type name":
		return "A"
	case "integer literal":
		return "7"
	case "string literal":
		return "'a'"
	case "variable":
		return "$a"
	}
	return name
}

// checkNames asserts that an error of the parser names what is at the place
// that it reports, and what the parser would accept there.
func checkNames(mode, s string, err error) {
	r, ok := err.(issue.Reported)
	if !ok {
		return
	}
	off := offsetOf(s, r.Location().Line(), r.Location().Pos())
	if off < 0 {
		vp.Fail("outside of the source: " + err.Error() + " in " + s)
	}
	arg := func(k string) string {
		x, ok := r.Argument(k).(string)
		if st, isStyle := r.Argument(k).(parser.StepStyle); isStyle {
			x, ok = string(st), true
		}
		if !ok || x == "" || !strings.Contains(r.Error(), x) {
			vp.Fail("no " + k + ": " + r.Error() + " in " + s)
		}
		return x
	}
	actual := func(k string) {
		if !member(arg(k), tokenNames(s, off)) && !(arg(k) == "epp text" && mode == "e") {
			vp.Fail("not at this place: " + err.Error() + " in " + s)
		}
	}
	expected := func(x string) {
		vp.Assert(x != "" && x != "'", "no name of what is expected: "+err.Error()+" in "+s)
		if x == "|" {
			return // what follows tells if it ends parameters
		}
		t := s[:off] + spelled(x) + " " + s[off:]
		if x == "EOF" {
			t = s[:off]
		}
		if e := parseErr(mode, t); e != nil {
			q, ok := e.(issue.Reported)
			if ok && q.Code() == r.Code() && offsetOf(t, q.Location().Line(), q.Location().Pos()) == off {
				vp.Fail("not accepted at this place: " + err.Error() + " in " + s)
			}
		}
	}
	vp.Cover(string(r.Code()))
	switch r.Code() {
	case "LEX_UNEXPECTED_TOKEN":
		if arg("token") == "+" && off > 0 && s[off-1] == '+' {
			return // located after it
		}
		if hasText(s, "type ") && !member(arg("token"), tokenNames(s, off)) {
			// located after the token that follows the name of a type
			for i := off - 1; i >= 0; i-- {
				if t := scan(s[i:off])[0]; t.at == 0 && t.end == off-i && member(arg("token"), tokenNames(s[:off], i)) {
					return
				}
			}
		}
		actual("token")
	case "PARSE_EXPECTED_TOKEN":
		actual("actual")
		expected(arg("expected"))
	case "PARSE_EXPECTED_ONE_OF_TOKENS":
		actual("actual")
		l := strings.Split(arg("expected"), "'")
		vp.Assert(len(l) == 5, "not one of two: "+err.Error())
		expected(l[1])
		expected(l[3])
	case "LEX_UNTERMINATED_STRING":
		q := byte('`')
		switch arg("string_type") {
		case "double":
			q = '"'
		case "single":
			q = '\''
		}
		vp.Assert(at(s, off) == q, "no such string at this place: "+err.Error()+" in "+s)
	case "PARSE_EXPECTED_STEP_NAME":
		last := ""
		for _, w := range strings.Fields(s[:off]) {
			if member(w, []string{"action", "resource", "workflow", "stateHandler"}) {
				last = w
			}
		}
		vp.Assert(arg("step") == last, "not the step at this place: "+err.Error()+" in "+s)
	default:
		for _, k := range r.Keys() {
			x := arg(k)
			if !hasText(s, x) {
				vp.Fail("not in the source: " + err.Error() + " in " + s)
			}
		}
	}
}

func hasText(s, t string) bool {
	return strings.Contains(s, t)
}

// C27_tokens: errors in templates of every construct with a token inserted,
// replaced, or removed at every place.
func C27_tokens() {
	t := &tmpls[vp.Choose(len(tmpls))]
	s := t.src
	if len(t.gaps) == 0 {
		return
	}
	k := vp.Choose(len(t.gaps))
	at, end := t.gaps[k], len(s)
	if k+1 < len(t.gaps) {
		end = t.gaps[k+1]
	}
	toks := tokens
	if !vp.Thorough() {
		toks = strings.Split(") } , => a 'a' A 7 ^ \"", " ")
	}
	op := vp.Choose(3)
	if op == 1 && !vp.Thorough() {
		toks = toks[:4]
	}
	tok := toks[vp.Choose(len(toks))]
	switch op {
	case 0: // insert
		s = s[:at] + " " + tok + " " + s[at:]
	case 1: // replace
		s = s[:at] + " " + tok + " " + s[end:]
	case 2: // end
		if tok != toks[0] {
			return
		}
		s = s[:at]
	}
	if err := parseErr(t.mode, s); err != nil {
		checkNames(t.mode, s, err)
	}
}

// labelOf returns how messages call a node
func labelOf(e parser.Expression) string {
	switch e := e.(type) {
	case *parser.AccessExpression:
		return "'[]' expression"
	case *parser.AndExpression:
		return "'and' expression"
	case *parser.ArithmeticExpression:
		return "'" + e.Operator() + "' expression"
	case *parser.Application:
		return "Application"
	case *parser.AssignmentExpression:
		return "'" + e.Operator() + "' expression"
	case *parser.AttributeOperation:
		return "'" + e.Operator() + "' expression"
	case *parser.AttributesOperation:
		return "AttributesOperation"
	case *parser.BlockExpression:
		return "Block Expression"
	case *parser.CallMethodExpression:
		return "Method Call"
	case *parser.CallNamedFunctionExpression:
		return "Function Call"
	case *parser.CapabilityMapping:
		return "Capability Mapping"
	case *parser.CaseExpression:
		return "'case' statement"
	case *parser.CaseOption:
		return "CaseOption"
	case *parser.CollectExpression:
		return "CollectExpression"
	case *parser.ComparisonExpression:
		return "'" + e.Operator() + "' expression"
	case *parser.ConcatenatedString:
		return "Concatenated String"
	case *parser.EppExpression:
		return "Epp Template"
	case *parser.ExportedQuery:
		return "Exported Query"
	case *parser.HeredocExpression:
		return "Heredoc"
	case *parser.HostClassDefinition:
		return "Host Class Definition"
	case *parser.UnlessExpression:
		return "'unless' statement"
	case *parser.IfExpression:
		return "'if' statement"
	case *parser.InExpression:
		return "'in' expression"
	case *parser.KeyedEntry:
		return "Hash Entry"
	case *parser.LambdaExpression:
		return "Lambda"
	case *parser.LiteralBoolean:
		return "Literal Boolean"
	case *parser.LiteralDefault:
		return "'default' expression"
	case *parser.LiteralFloat:
		return "Literal Float"
	case *parser.LiteralHash:
		return "Hash Expression"
	case *parser.LiteralInteger:
		return "Literal Integer"
	case *parser.LiteralList:
		return "Array expression"
	case *parser.LiteralString:
		return "Literal String"
	case *parser.LiteralUndef:
		return "'undef' expression"
	case *parser.MatchExpression:
		return "'" + e.Operator() + "' expression"
	case *parser.NamedAccessExpression:
		return "'.' expression"
	case *parser.NodeDefinition:
		return "Node Definition"
	case *parser.Nop:
		return "Nop"
	case *parser.NotExpression:
		return "'!' expression"
	case *parser.OrExpression:
		return "'or' expression"
	case *parser.Parameter:
		return "Parameter Definition"
	case *parser.ParenthesizedExpression:
		return "Parenthesized Expression"
	case *parser.PlanDefinition:
		return "Plan Definition"
	case *parser.FunctionDefinition:
		return "Function Definition"
	case *parser.Program:
		return "Program"
	case *parser.QualifiedName:
		return "Name"
	case *parser.QualifiedReference:
		return "Type-Name"
	case *parser.RelationshipExpression:
		return "'" + e.Operator() + "' expression"
	case *parser.RenderExpression:
		return "Epp Interpolated Expression"
	case *parser.RenderStringExpression:
		return "Epp Text"
	case *parser.RegexpExpression:
		return "Regular Expression"
	case *parser.ReservedWord:
		return "Reserved Word '" + e.Name() + "'"
	case *parser.ResourceBody:
		return "Resource Instance Definition"
	case *parser.ResourceDefaultsExpression:
		return "Resource Defaults Expression"
	case *parser.ResourceExpression:
		return "Resource Statement"
	case *parser.ResourceOverrideExpression:
		return "Resource Override"
	case *parser.ResourceTypeDefinition:
		return "'define' expression"
	case *parser.SelectorEntry:
		return "Selector option"
	case *parser.SelectorExpression:
		return "Selector expression"
	case *parser.SiteDefinition:
		return "Site Definition"
	case *parser.StepExpression:
		return "Step"
	case *parser.TextExpression:
		return "Text expression"
	case *parser.TypeAlias:
		return "Type Alias"
	case *parser.TypeDefinition:
		return "Type Definition"
	case *parser.TypeMapping:
		return "Type Mapping"
	case *parser.UnaryMinusExpression:
		return "Unary Minus"
	case *parser.UnfoldExpression:
		return "Unfold"
	case *parser.VariableExpression:
		return "Variable"
	case *parser.VirtualQuery:
		return "Virtual Query"
	}
	vp.Fail("unknown kind of node")
	return ""
}

// isIn tells if the texts are in s, one after the other
func isIn(s string, texts []string) bool {
	for _, t := range texts {
		k := strings.Index(s, t)
		if k < 0 {
			return false
		}
		s = s[k+len(t):]
	}
	return true
}

// textAt returns the text of a node
func textAt(src string, e parser.Expression) string {
	return src[e.ByteOffset() : e.ByteOffset()+e.ByteLength()]
}

// faults returns what a message for an issue of a kind must name, given the
// node and those around it (from the inside to the outside).
// n is the number of issues of this kind at the same place before this one.
func faults(code, src string, n int, e parser.Expression, around []parser.Expression) (names []string, ok bool) {
	up := func(i int) parser.Expression {
		if i < len(around) {
			return around[i]
		}
		return &parser.Nop{}
	}
	self := labelOf(e)
	quoted := func(s string) string { return "'" + s + "'" }
	switch code {
	case "APPENDS_DELETES_NO_LONGER_SUPPORTED":
		x, ok := e.(*parser.AssignmentExpression)
		if !ok {
			return nil, false
		}
		return []string{quoted(x.Operator())}, true
	case "CAPTURES_REST_NOT_LAST", "DUPLICATE_PARAMETER", "ILLEGAL_NUMERIC_PARAMETER", "ILLEGAL_PARAMETER_NAME", "CAPTURES_REST_NOT_SUPPORTED":
		x, ok := e.(*parser.Parameter)
		if !ok {
			return nil, false
		}
		switch code {
		case "CAPTURES_REST_NOT_LAST":
			return []string{"$" + x.Name() + " "}, true
		case "CAPTURES_REST_NOT_SUPPORTED":
			return []string{"$" + x.Name() + " ", " " + (labelOf(up(0)))}, true
		case "ILLEGAL_NUMERIC_PARAMETER":
			return []string{quoted("$" + x.Name())}, true
		}
		return []string{quoted(x.Name())}, true
	case "CATALOG_OPERATION_NOT_SUPPORTED", "WORKFLOW_OPERATION_NOT_SUPPORTED":
		return []string{quoted(textAt(src, e))}, true
	case "CROSS_SCOPE_ASSIGNMENT":
		x, ok := e.(*parser.VariableExpression)
		if !ok {
			return nil, false
		}
		name, _ := x.Name()
		return []string{quoted(name)}, textAt(src, e) == "$"+name
	case "ILLEGAL_NUMERIC_ASSIGNMENT":
		_, ok := e.(*parser.VariableExpression)
		return []string{quoted(textAt(src, e))}, ok
	case "DUPLICATE_DEFAULT":
		switch e.(type) {
		case *parser.LiteralDefault:
			return []string{"This " + labelOf(up(1)) + " "}, true
		case *parser.SelectorEntry:
			return []string{"This " + labelOf(up(0)) + " "}, true
		}
		return nil, false
	case "DUPLICATE_KEY":
		x, ok := e.(*parser.KeyedEntry)
		if !ok {
			return nil, false
		}
		return []string{quoted(textAt(src, x.Key()))}, true
	case "FUTURE_RESERVED_WORD":
		w := strings.ToLower(textAt(src, e))
		for i := 0; i < len(w); i++ {
			if w[i] == '[' {
				w = w[:i]
			}
		}
		return []string{quoted(w)}, true
	case "RESERVED_WORD":
		return []string{" " + textAt(src, e) + ","}, true
	case "IDEM_EXPRESSION_NOT_LAST":
		_, ok := up(0).(*parser.BlockExpression)
		return []string{"This " + self + " "}, ok
	case "IDEM_NOT_ALLOWED_LAST":
		_, ok := up(0).(*parser.BlockExpression)
		return []string{"This " + self + " ", " " + (labelOf(up(1))) + " "}, ok
	case "ILLEGAL_ATTRIBUTE_APPEND":
		x, ok := e.(*parser.AttributeOperation)
		if !ok {
			return nil, false
		}
		return []string{" " + x.Name() + ".", " " + (labelOf(up(0)))}, true
	case "ILLEGAL_CLASSREF":
		switch e := e.(type) {
		case *parser.QualifiedName:
			return []string{quoted(e.Name())}, true
		case *parser.CapabilityMapping:
			return []string{quoted(e.Capability())}, true
		}
		return nil, false
	case "ILLEGAL_DEFINITION_NAME", "RESERVED_TYPE_NAME":
		name := ""
		switch e := e.(type) {
		case parser.NamedDefinition:
			name = e.Name()
		case *parser.TypeAlias:
			name = e.Name()
		default:
			return nil, false
		}
		return []string{quoted(name), " " + (self)}, true
	case "ILLEGAL_EXPRESSION":
		feature, in := "", up(0)
		switch up(0).(type) {
		case *parser.CallNamedFunctionExpression:
			feature = "function name"
		case *parser.CapabilityMapping:
			feature = "capability mapping"
		case *parser.CollectExpression:
			feature = "type name"
		case *parser.NamedAccessExpression:
			feature, in = "method name", up(1)
		case *parser.FunctionDefinition, *parser.LambdaExpression, *parser.TypeAlias, *parser.PlanDefinition:
			feature = "a type reference"
		default:
			return nil, false
		}
		return []string{" " + (self) + " ", " " + feature + " ", " " + (labelOf(in))}, true
	case "ILLEGAL_HOSTNAME_CHARS":
		switch e := e.(type) {
		case *parser.LiteralString:
			return []string{quoted(e.StringValue())}, true
		case *parser.ConcatenatedString:
			return nil, true
		}
		return nil, false
	case "ILLEGAL_QUERY_EXPRESSION", "NOT_ABSOLUTE_TOP_LEVEL", "NOT_RVALUE":
		return []string{" " + (self) + " "}, true
	case "RESERVED_PARAMETER":
		x, ok := e.(parser.NamedDefinition)
		if !ok {
			return nil, false
		}
		name := ""
		for _, p := range x.Parameters() {
			if s := p.(*parser.Parameter).Name(); s == "name" || s == "title" {
				if n == 0 {
					name = s
				}
				n--
			}
		}
		return []string{"$" + name + " ", " " + (self)}, name != ""
	case "UNSUPPORTED_EXPRESSION", "ILLEGAL_REGEXP_TYPE_MAPPING", "ILLEGAL_SINGLE_TYPE_MAPPING":
		return []string{" " + (self)}, true
	case "UNSUPPORTED_OPERATOR_IN_CONTEXT":
		return []string{"'* =>'", " " + (self)}, true
	}
	return nil, true
}

// checkMessages asserts that each issue names what is at fault.
func checkMessages(src string, e parser.Expression, issues []issue.Reported) {
	seen := map[string]int{}
	for _, i := range issues {
		code := strings.TrimPrefix(string(i.Code()), "VALIDATE_")
		vp.Cover(code)
		text := i.Error()
		found := false
		line, pos := i.Location().Line(), i.Location().Pos()
		n := seen[issueAt(i)]
		seen[issueAt(i)]++
		try := func(path []parser.Expression, x parser.Expression) {
			if found || x.Line() != line || x.Pos() != pos {
				return
			}
			var around []parser.Expression
			for k := len(path) - 1; k >= 0; k-- {
				around = append(around, path[k])
			}
			if names, ok := faults(code, src, n, x, around); ok && isIn(text, names) {
				found = true
			}
		}
		try(nil, e)
		e.AllContents(nil, try)
		vp.Assert(found, "does not name what is at fault: "+text+" in "+src)
		checkErr(src, i.Location().File(), i)
	}
}

// C27_expressions, C27_statements, C27_...: issues in the sources of C18.
func C27_expressions() { named = true; C18_expressions() }

// C27_operands: messages for expressions that are operands.
func C27_operands()    { named = true; C18_operands() }
func C27_statements()  { named = true; C18_statements() }
func C27_definitions() { named = true; C18_definitions() }
func C27_parameters()  { named = true; C18_parameters() }
func C27_epp()         { named = true; C18_epp() }
func C27_types()       { named = true; C18_types() }
func C27_queries()     { named = true; C18_queries() }
func C27_relations()   { named = true; C18_relations() }
func C27_hosts()       { named = true; C18_hosts() }
func C27_effect()      { named = true; C18_effect() }
func C27_tasks()       { named = true; C18_tasks() }

// C27_names: names of definitions that are not legal.
func C27_names() {
	name := []string{"aq", "Aq", "a::Bq", "7", "string", "Integer", "object", "application", "::aq", "a::_q", "'a q'", "Any", "produces", "semver"}[vp.Choose(14)]
	src := []string{"class ^ { }", "define ^ { }", "function ^ { }", "type ^ = Zzz", "plan ^ { }", "class z { class ^ { } }", "class z { define ^($a) { } }", "application ^ { }", "site { class ^ { } }", "function z >> ^ { }", "f() |$a| >> ^[7] { }", "type Z = ^", "A produces ^ { }", "^ consumes b { }", "^::c produces D { }", "A[^] consumes B { }", "^[$a] produces B { c => 7 }", "$a[7] consumes B { }"}[vp.Choose(18)]
	checkFaults([]string{"p", "t"}[vp.Choose(2)], fill(place(src, name)))
}

func checkFaults(mode, src string) {
	e, err := ParseMode(mode, src)
	if err == nil {
		checkMessages(src, e, validate(mode, e, validator.StrictError))
	}
}

// C27_steps: steps outside of workflows.
func C27_steps() {
	x := []string{"workflow aq { } { }", "action aq { } { f(7) }", "resource aq { type => B } { c => 7 }", "stateHandler aq { } { $x = 7 }", "workflow a { } { workflow b { } { action c { } { } } resource d { } { } }"}[vp.Choose(5)]
	src := fill(place([]string{"^", "$x = 1 ^", "if $x { ^ }", "f() |$x| { ^ }", "function z { ^ }"}[vp.Choose(5)], x))
	e, err := ParseMode("w", src)
	if err != nil {
		return
	}
	if vp.Bool() {
		checkMessages(src, e, validator.ValidatePuppet(e, validator.StrictError).Issues())
	} else {
		checkMessages(src, e, validator.ValidateTasks(e).Issues())
	}
}

// C27_more: other issues.
func C27_more() {
	src, _ := unmark(fill(problem()))
	checkFaults([]string{"p", "t"}[vp.Choose(2)], src)
}

// C27_grammar: issues of combinations of constructs.
func C27_grammar() {
	g := someGram(2, 3)
	src, _ := g.source()
	checkFaults(g.mode, src)
}

// C27_operators: names of expressions, as statements without effect.
func C27_operators() {
	x := []string{"$a and $b", "$a or $b", "$a + 1", "$a - 1", "$a * 1", "$a / 1", "$a % 1", "$a << 1", "$a >> 1", "$a == 1", "$a != 1", "$a < 1", "$a > 1", "$a <= 1", "$a >= 1", "$a in [1]", "!$a", "-$a", "$a", "7", "1.5", "'a'", "\"a${b}\"", "[1]", "{a => 1}", "($a)", "true", "undef", "default", "a", "A", "A[1]", "$a[1]", "/a/",
		"$a ? { 1 => 2 }", "if $a { 1 }", "unless $a { 1 }", "case $a { 1: { 2 } }", "@(E)\na\n| E\n", "attr", "if $a { 1 } else { 2 }"}[vp.Choose(41)]
	p := []string{"^\n$q = 7", "class aq { ^ }", "define a { ^ }", "node a { f(7) ^ }", "if $a { ^; f(1) }", "A <| ^ |>", "^(7)", "(^)(7)", "$x.(^)", "$x.^", "type A = ^", "^ produces B { }", "^ <| |>"}[vp.Choose(13)]
	checkFaults("p", fill(place(p, x)))
}
