package h

import (
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

// A rule is a source and the codes of the issues that are expected for it.
// Each # in the source marks the place of an issue and is followed by the
// index of its code (a letter); it is not a part of the source.
type rule struct {
	kind, src string
}

// codes are the issues of the language by the letters that mark them.
var codes = map[byte]string{
	'A': "APPENDS_DELETES_NO_LONGER_SUPPORTED", 'B': "CAPTURES_REST_NOT_LAST", 'C': "CAPTURES_REST_NOT_SUPPORTED", 'D': "CATALOG_OPERATION_NOT_SUPPORTED",
	'E': "CROSS_SCOPE_ASSIGNMENT", 'F': "DUPLICATE_DEFAULT", 'G': "DUPLICATE_KEY", 'H': "DUPLICATE_PARAMETER", 'I': "FUTURE_RESERVED_WORD",
	'J': "IDEM_EXPRESSION_NOT_LAST", 'K': "IDEM_NOT_ALLOWED_LAST", 'L': "ILLEGAL_ASSIGNMENT_CONTEXT", 'M': "ILLEGAL_ASSIGNMENT_VIA_INDEX",
	'N': "ILLEGAL_ATTRIBUTE_APPEND", 'O': "ILLEGAL_CLASSREF", 'P': "ILLEGAL_DEFINITION_NAME", 'Q': "ILLEGAL_EXPRESSION", 'R': "ILLEGAL_HOSTNAME_CHARS",
	'S': "ILLEGAL_HOSTNAME_INTERPOLATION", 'T': "ILLEGAL_NUMERIC_ASSIGNMENT", 'U': "ILLEGAL_NUMERIC_PARAMETER", 'V': "ILLEGAL_PARAMETER_NAME",
	'W': "ILLEGAL_QUERY_EXPRESSION", 'X': "ILLEGAL_REGEXP_TYPE_MAPPING", 'Y': "ILLEGAL_SINGLE_TYPE_MAPPING", 'Z': "MULTIPLE_ATTRIBUTES_UNFOLD",
	'a': "NOT_ABSOLUTE_TOP_LEVEL", 'b': "NOT_RVALUE", 'c': "NOT_TOP_LEVEL", 'd': "NOT_VIRTUALIZABLE", 'e': "RESERVED_PARAMETER", 'f': "RESERVED_TYPE_NAME",
	'g': "RESERVED_WORD", 'h': "UNSUPPORTED_EXPRESSION", 'i': "UNSUPPORTED_OPERATOR_IN_CONTEXT", 'j': "WORKFLOW_OPERATION_NOT_SUPPORTED",
}

// unmark removes the marks and returns "line:pos code" for each of them
func unmark(s string) (src string, want []string) {
	line, pos := 1, 1
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			want = append(want, itoa(line)+":"+itoa(pos)+" "+codes[s[i+1]])
			i++
			continue
		}
		b = append(b, s[i])
		pos++
		if s[i] == '\n' {
			line, pos = line+1, 1
		}
	}
	return string(b), want
}

func itoa(n int) string { return strconv.Itoa(n) }

func issueAt(i issue.Reported) string {
	l := i.Location()
	return itoa(l.Line()) + ":" + itoa(l.Pos()) + " " + strings.TrimPrefix(string(i.Code()), "VALIDATE_")
}

// validate runs the validator of the mode
func validate(mode string, e parser.Expression, strict validator.Strictness) []issue.Reported {
	switch mode {
	case "t":
		return validator.ValidateTasks(e).Issues()
	case "w":
		return validator.ValidateWorkflow(e).Issues()
	}
	return validator.ValidatePuppet(e, strict).Issues()
}

// expectIssues asserts that exactly the marked issues are reported
func expectIssues(mode, marked string) {
	src, want := unmark(marked)
	checkIssues(mode, src, want)
}

// named tells that the messages of the issues are to be checked instead
var named bool

// checkIssues asserts that exactly the given issues are reported
func checkIssues(mode, src string, want []string) {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	got := validate(mode, e, validator.StrictError)
	if named {
		checkMessages(src, e, got)
		return
	}
	for _, i := range got {
		at := issueAt(i)
		found := false
		for k, w := range want {
			if w == at {
				want[k], found = "", true
				break
			}
		}
		vp.Assert(found, "in "+src+" unexpected issue "+at)
		text := i.Error()
		vp.Assert(!strings.Contains(text, "%!"), "malformed message "+text)
	}
	for _, w := range want {
		vp.Assert(w == "", "in "+src+" missing issue "+w)
	}
}

// expressions that are or are not legal, wherever an expression may be
var exprRules = []string{
	"$aq = 1", "#E$a::bq = 1", "#E$::aq = 1", "#T$7 = 1", "#M$aq[1] = 2", "[$aq, $b] = [1, 2]", "[#M$a[7], [#E$b::cq, #T$7]] = 1", "$aq.b", "$a.#QBq",
	"#A$aq += 1", "#A$a::b -= 1", "#gattr", "#gprivate", "aq(1)", "Aq(1)", "Aq[b](1)", "#Qaq[b](1)", "#Q'a'(1)", "#Q[1](2)",
	"$aq ? { 7 => 1, default => 2 }", "$aq ? { default => 1, #Fdefault => 2, 7 => 3, #Fdefault => 4 }", "[7, 'aq']", "{aq => 7, b => 7}", "{aq => 1, #Gaq => 2}",
	"case $aq { 7: { } default: { } }", "case $a { default: { } 7: { } 1, #Fdefault: { } #Fdefault: { } }",
	"f() |*$aq| { }", "f() |#B*$aq, $b| { }", "f() |$aq = 1| { }", "f() |$aq = (#L$b = 1)| { }", "f() |$aq = g(#L$b = 1)| { }", "f() |$aq = g() |$c| { $b = 1 }| { }", "f() |#V$a::bq| { }",
	"f() |$aq = [{a => #L$b = 1}]| { }", "f() |$a| >> Aq { }", "f() |$a| >> Aq[b] { }", "f() |$a| >> #IApplication { }",
	"if $aq { 7 } else { 1 }", "if $aq { #J7 $b } else { #Jaq $b = 1 }", "unless $aq { #J$b 1 }", "f() |$a| { #Jaq $b }",
	"f() |$a| { $b = 1 aq($b) }", "$a =~ /q/", "-$aq", "!$aq", "\"a${b}q\"", "undef", "\"a${#gattr}q\"", "\"${f(#T$7 = 1)}\"", "f(*$aq)", "[*$aq]", "'aq' in [7]", "$a[#E$b::cq = 1]",
	"$a ? { 1 => (#M$bq[1] = 7) }", "$a ? { 1 => { b => 1, #Gb => 2 } }",
}

// places for an expression. The second string tells what is to be expected
// of a definition there (see C18_definitions).
var exprPlaces = []string{
	"^", "notice(^)", "notice(1, ^)", "$x = ^", "$x = [1, ^]", "$x = {a => ^}", "$x = {1 => 2, a => ^}", "$x = (^)", "if (^) { }", "if $x { ^ }", "if $x { } else { ^ }", "if $x { } elsif $y { ^ } else { }",
	"unless (^) { }", "unless $x { ^ }", "unless $x { } else { ^ }", "case (^) { 1: { } }", "case 1 { 2: { ^ } }", "case 1 { 2: { } (^), 3: { } }", "$x = 1 ? { 2 => (^) }", "$x = 1 ? { (^) => 3 }", "$x = (^) ? { 2 => 1 }",
	"$x = (^) + 1", "$x = 1 == (^)", "$x = !(^)", "$x = $y and (^)", "$x = $y[(^)]", "$x.y(^)", "(^).y", "f($x) |$y| { ^ }", "$x.each |$y| { ^ }", "f($x) |$y = (f() |$z| { ^ })| { }", "$x = \"a${(^)}b\"", "$x = \"a${f(^)}b\"",
	"r { 'x': y => (^) }", "r { (^): y => 1 }", "r { 'x': * => (^) }", "r { 'x': y => 1; 'z': y => (^) }", "R { y => (^) }", "R['x'] { y => (^) }", "R <| x == 1 |> { y => (^) }", "R[(^)] { y => 1 }", "notice @(\"E\")\na${f(^)}b\nE\n", "f(1, g() |$x| { ^ })",
	"function f { ^ }", "function f($x = (f() |$z| { ^ })) { }", "site { ^ }", "application a { ^ }", "class c { $x = (^) }", "class c { f(^) }", "define d { f(^) }", "node n { f(^) }", "class c { class d { f(^) } }", "class c($x = [f() |$z| { ^ }]) { f(1) }", "R['x'] -> R[(^)]",
	"R <| x == y |> -> R[(^)]", "@@r { 'x': y => (^) }", "R <<| |>> { y => (^) }", "include f(^)", "#Qf(^)(1)", "$x = R[1](^)", "[1, 2].map |$y| { 1 + f(^) }",
}

// place puts a marked expression in a place
func place(p, x string) string { return strings.Replace(p, "^", x, 1) }

// fill replaces the holes of a marked source
func fill(s string) string {
	if !hasByte(s, 'q') && !hasByte(s, '7') {
		return s
	}
	q, seven := vp.ByteOf(nameTail), vp.ByteOf("123456789")
	b := []byte(s)
	for i := range b {
		if i > 0 && b[i-1] == '#' {
			continue
		}
		if b[i] == 'q' {
			b[i] = q
		} else if b[i] == '7' {
			b[i] = seven
		}
	}
	return string(b)
}

// C18_expressions: every rule for expressions, in every place.
func C18_expressions() {
	x := exprRules[vp.Choose(len(exprRules))]
	p := exprPlaces[vp.Choose(len(exprPlaces))]
	expectIssues("p", fill(place(p, x)))
}

// expressions that need no parentheses as an operand
var operandRules = []string{
	"#gattr", "$a.#QBq", "aq(1)", "#Qaq[b](1)", "$aq ? { default => 1, #Fdefault => 2, 7 => 3, #Fdefault => 4 }", "[7, #gattr]", "{aq => 1, #Gaq => 2}", "f() |#B*$aq, $b| { }", "f() |$a| { #Jaq $b }", "f() |$aq = (#L$b = 1)| { }",
	"\"a${#gattr}q\"", "$a[#E$b::cq = 1]", "f(#T$7 = 1)",
}

// C18_operands: rules for expressions that are the operand of something.
func C18_operands() {
	x := operandRules[vp.Choose(len(operandRules))]
	p := exprPlaces[vp.Choose(len(exprPlaces))]
	p = strings.Replace(strings.Replace(p, " (^)", " ^", 1), "[(^)]", "[^]", 1)
	if strings.Contains(p, "(^)") || p == "^" {
		return
	}
	if strings.Contains(x, " ? ") && (strings.HasPrefix(p, "if ^") || strings.HasPrefix(p, "unless ^") || strings.Contains(p, "^ ?") || strings.Contains(p, "^ +")) {
		return // an operator after a selector
	}
	expectIssues("p", fill(place(p, x)))
}

// definitions by what is said about them in a place where they must not be:
// c if they may be in a class, a if they may be at the top only, - if they
// are not restricted; d, those that are values nowhere, follows
var defRules = []struct{ src, where string }{
	{"class cq { }", "c"}, {"class cq::d($a = 7) inherits e { f($a) }", "c"}, {"define dq { }", "c"}, {"define dq($a) { notice($a) }", "c"}, {"node nq { }", "c"}, {"node 'nq', /x/ inherits default { f(7) }", "c"},
	{"function fq { }", "a"}, {"function fq($a, *$b) >> A { 7 }", "a"}, {"type Aq = B", "a"}, {"type Aq = B[7]", "a"}, {"type Runtime[a, 'bq'] = B", "a"},
	{"application aq { }", "-"}, {"site { f(7) }", "-"}, {"Aq produces B { c => 7 }", "-"}, {"Aq consumes B { }", "-"}, {"Aq <| a == 7 |>", "n"}, {"A <<| |>> { bq +> 7 }", "n"},
}

// top, class body, other body, no block (value is not required), value required
var defPlaces = []struct{ src, kind string }{
	{"^", "t"}, {"$x = 1 ^", "t"}, {"^ $x = 1", "t"}, {"class z { } ^", "t"},
	{"class z { ^ }", "c"}, {"class z { f(1) ^ f(2) }", "c"}, {"class z { class y { ^ } }", "c"}, {"class z { class y { } ^ }", "c"},
	{"define z { ^ }", "b"}, {"node z { ^ }", "b"}, {"function z { ^ }", "b"}, {"class z { define y { ^ } }", "b"}, {"class z { if $x { ^ } }", "b"}, {"if $x { ^ }", "b"}, {"if $x { } else { ^ }", "b"}, {"unless $x { ^ }", "b"},
	{"case $x { 1: { ^ } }", "b"}, {"f(1) |$x| { ^ }", "b"}, {"$x.y |$z| { ^ }", "b"}, {"site { ^ }", "b"}, {"application z { ^ }", "b"}, {"if $x { if $y { ^ } }", "b"}, {"if $x { class z { #c ^ } }", "-"}, {"if $x { } elsif $y { ^ }", "b"}, {"class z { node y { ^ } }", "b"},
	{"define z { class y { #c ^ } }", "-"},
	{"f(^)", "n"}, {"f(1, ^)", "n"}, {"$x = ^", "n"}, {"r { 'x': y => ^ }", "n"}, {"$x = 1 ? { 2 => ^ }", "n"}, {"f() |$a = ^| { }", "n"}, {"class z($a = ^) { }", "n"},
	{"$x = [^]", "v"}, {"$x = [1, ^]", "v"}, {"$x = {a => ^}", "v"}, {"$x = !^", "v"}, {"$x = 1 + ^", "v"}, {"if ^ { }", "v"}, {"$x = 1 == ^", "v"}, {"if $x { } elsif ^ { }", "v"}, {"case ^ { 1: { } }", "v"}, {"case 1 { ^: { } }", "v"}, {"$x = 1 ? { ^ => 1 }", "v"}, {"r { 'x': * => ^ }", "v"},
	{"R['x'] -> ^", "r"},
}

// C18_definitions: every definition, in every place.
func C18_definitions() {
	d := defRules[vp.Choose(len(defRules))]
	p := defPlaces[vp.Choose(len(defPlaces))]
	if p.kind == "-" {
		return
	}
	if (p.kind == "n" || p.kind == "v") && (strings.HasPrefix(d.src, "type") || strings.HasPrefix(d.src, "function") || strings.HasPrefix(d.src, "application") || strings.HasPrefix(d.src, "site")) && !strings.Contains(p.src, " = ^") {
		return // a name there
	}
	if strings.HasPrefix(p.src, "class") && strings.HasPrefix(d.src, "Aq ") && strings.Contains(d.src, "s B") {
		return // its name is qualified
	}
	m := ""
	if p.kind == "v" || p.kind == "r" && d.where != "n" {
		m = "#b"
	}
	if strings.HasPrefix(p.src, "if ^") || strings.Contains(p.src, "elsif ^") || strings.HasPrefix(p.src, "case ^") {
		if d.where == "n" || strings.HasPrefix(d.src, "Aq") {
			return // the block would belong to it
		}
	}
	if strings.Contains(p.src, "!^") || strings.Contains(p.src, "+ ^") || strings.Contains(p.src, "== ^") || p.kind == "r" {
		if strings.HasPrefix(d.src, "A") {
			return // binds otherwise
		}
	}
	switch {
	case d.where == "c" && p.kind != "t" && p.kind != "c":
		m += "#c"
	case d.where == "a" && (p.kind == "c" || p.kind == "b"):
		m += "#a"
	case d.where == "a" && p.kind != "t":
		m += "#c"
	}
	x := d.src
	if strings.HasPrefix(x, "type ") && m != "" {
		m2 := strings.Replace(m, "#b", "", 1)
		x = m[:len(m)-len(m2)] + "type " + m2 + x[5:]
		x = strings.Replace(x, "#btype ", "type #b", 1)
	} else {
		x = m + x
	}
	expectIssues("p", fill(strings.Replace(p.src, "^", x, 1)))
}

// one parameter and what is wrong with it. C and B are the marks for a
// parameter that captures the rest, and e is the one for a reserved name.
var paramRules = []string{"$aq", "$aq = 7", "Aq $b", "Aq[7] $b = 'q'", "#V$aq::b", "$c = (#L$b = 7)", "$d = [f() |$a, *$b| { $c = 7 }]", "$f = #gattr", "$g = {a => 1, #Ga => 7}", "C*$hq", "CA *$ij", "e$name", "eA $title = 7", "A[#T$7 = 1] $k", "$m = $n"}

// C18_parameters: parameters of everything that has some.
func C18_parameters() {
	kind := vp.Choose(5)
	n := 1 + vp.Choose(2)
	ps, front := "", ""
	for i := 0; i < n; i++ {
		k := vp.Choose(len(paramRules))
		x := paramRules[k]
		switch x[0] {
		case 'C':
			x = x[1:]
			if kind < 2 {
				x = "#C" + x
			} else if i < n-1 {
				x = "#B" + x
			}
		case 'e':
			x = x[1:]
			if kind < 2 {
				front += "#e"
			}
		}
		if i > 0 {
			// a name must not be used twice
			vp.Assume(k > 1 || !strings.Contains(ps, paramRules[0]))
			vp.Assume(!strings.Contains(ps, paramRules[k]) && !(strings.Contains(ps, "$b") && k < 4 && k > 1))
			vp.Assume(k < 9 || !strings.Contains(ps, strings.TrimLeft(paramRules[k], "Ce")))
			ps += ", "
		}
		ps += x
	}
	src := ""
	switch kind {
	case 0:
		src = front + "class z(" + ps + ") { f(1) }"
	case 1:
		src = front + "define z(" + ps + ") { f(1) }"
	case 2:
		src = "function z(" + ps + ") { f(1) }"
	case 3:
		src = "f(1) |" + ps + "| { f(1) }"
	case 4:
		src = "$x.y |" + ps + "| { f(1) }"
	}
	expectIssues("p", fill(src))
}

// C18_epp: parameters and rules in templates.
func C18_epp() {
	if vp.Bool() {
		x := exprRules[vp.Choose(len(exprRules))]
		p := []string{"a<%= (^) %>b", "<% ^ %>", "<% f(^) -%>\n", "<%| $x = [f() |$z| { ^ }] |%>", "<% if $x { %>a<%= (^) %><% } %>", "<% f(1) |$x| { -%>b<%= (^) %>c<% } %>"}[vp.Choose(6)]
		expectIssues("e", fill(place(p, x)))
		return
	}
	src := []string{"<%| $aq |%>", "<%| #C*$aq |%>", "<%| $a, A $b, #H$a, #H$a |%>x", "<%| $name, $title = 7 |%>", "<%| #V$aq::b |%>", "<%| $a = (#L$bq = 1) |%>", "<% #cclass aq { } %>", "<% #afunction aq { } %>", "<% type #aAq = B %>", "<%| #C#B*$a, $b |%>", "<% #cnode aq { } %>", "x<%= #b#cclass a { } %>y", "<%= -(#b#b#b#cdefine a { }) %>", "<% a { 'b': #Nc +> 7 } %>", "<% if $x { %><% #cdefine a { } %><% } %>"}[vp.Choose(15)]
	expectIssues("e", fill(src))
}

// C18_names: names of definitions.
func C18_names() {
	kind := vp.Choose(4)
	var name string
	switch vp.Choose(4) {
	case 0:
		name = vp.BytesOf("aZ_0:", 1+vp.Choose(3))
	case 1:
		name = vp.BytesOf("aZ_9", 1) + "::" + vp.BytesOf("bY_8", 1+vp.Choose(2))
	case 2:
		w := reservedTypes[vp.Choose(len(reservedTypes))]
		i := vp.Choose(len(w))
		name = w[:i] + vp.BytesOf("aznxt0_AZ:", 1) + w[i+1:]
	case 3:
		w := reservedTypes[vp.Choose(len(reservedTypes))]
		if vp.Bool() {
			w = capital(w[0]) + w[1:]
		}
		name = w + []string{"", "s", "::a", "_", "0"}[vp.Choose(5)]
	}
	src := []string{"class ", "define ", "function ", "type "}[kind] + name + []string{" { }", " { }", " { }", " = Zzz"}[kind]
	e, err := ParseMode("p", src)
	if err != nil {
		return
	}
	defs := e.(*parser.Program).Definitions()
	if len(defs) != 1 || len(e.(*parser.Program).Body().(*parser.BlockExpression).Statements()) != 1 {
		return // something else
	}
	vp.Cover("definition")
	if kind == 0 && strings.HasPrefix(name, "::") {
		name = name[2:]
	}
	got := validate("p", e, validator.StrictError)
	illegal := !isDefinitionName(name, kind == 3)
	reserved := false
	for _, w := range reservedTypes {
		if strings.EqualFold(w, name) {
			reserved = true
		}
	}
	n := 0
	for _, i := range got {
		c := strings.TrimPrefix(string(i.Code()), "VALIDATE_")
		switch {
		case c == "ILLEGAL_DEFINITION_NAME" && illegal, c == "RESERVED_TYPE_NAME" && reserved:
			n++
			vp.Assert(i.Location().Line() == 1 && i.Location().Pos() == map[bool]int{true: 6, false: 1}[kind == 3], "place of issue")
		default:
			vp.Fail("unexpected " + c + " for " + src)
		}
	}
	want := 0
	if illegal {
		want++
	}
	if reserved {
		want++
	}
	vp.Assert(n == want, "missing issue for "+src)
}

func capital(c byte) string { return string([]byte{c - 32}) }

// isDefinitionName tells if the name is made up of segments that start with
// a lower case letter, or an upper case letter.
func isDefinitionName(s string, up bool) bool {
	start := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case start && (!up && c >= 'a' && c <= 'z' || up && c >= 'A' && c <= 'Z'):
			start = false
		case start:
			return false
		case c == ':':
			if i+1 >= len(s) || s[i+1] != ':' {
				return false
			}
			i++
			start = true
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_':
		default:
			return false
		}
	}
	return !start
}

var reservedTypes = strings.Fields("type any unit scalar boolean numeric integer float collection array hash tuple struct variant optional enum regexp pattern runtime init object sensitive semver semverrange string timestamp timespan typeset")

// C18_types: what can be a type, and mappings.
func C18_types() {
	types := []string{"Aq", "::Aq::B[7]", "Aq::B", "Aq[7]", "Aq::B['q', C]", "#IApplication", "#IProduces[7]", "#IConsumes", "Appl", "#Q::aq", "#Q$aq", "#Q'q'", "#Q7", "#Qaq[7]", "#QA + 7", "#Q(A)", "#Qaq", "#Q/q/", "#QA ? { B => C }", "A[#T$7 = 1]", "#QA.b", "A[#gattr]"}
	var src string
	switch vp.Choose(5) {
	case 4:
		comps := []string{"Aq", "::Aq", "::Aq::B[b]", "#O::aq", "Aq[b]", "Aq['b']", "Aq[\"b\"]", "Aq[B::C]", "Aq::D['b']", "#Oaq", "#Oaq::b", "#QAq[7]", "#QAq[b, c]", "#QAq[$b]", "#QAq[[b]]", "#QAq[b][c]", "#Qaq[b]", "#Q$a[b]", "#QA[\"b${c}\"]", "#QA['b', C]", "#QA[true]", "#QA[b + c]", "#QA[{b => c}]"}
		c := comps[vp.Choose(len(comps))]
		k := []string{" produces ", " consumes "}[vp.Choose(2)]
		n := []string{"Bq", "Bq::C", "::Bq", "::Bq::C_7", "bq", "::bq", "b::c"}[vp.Choose(7)]
		if n[len(n)-1] == 'q' && n[len(n)-2] != 'B' || n == "b::c" {
			c = "#O" + c
		}
		src = c + k + n + []string{" { }", " { cq => 7 }", " { c => $d, e => 7 }"}[vp.Choose(3)]
	case 0:
		src = "type Zz = " + types[vp.Choose(len(types))]
	case 1:
		src = "function z >> " + types[vp.Choose(8)] + " { }"
	case 2:
		src = "f() |$x| >> " + types[vp.Choose(8)] + " { }"
	case 3:
		l := vp.Choose(12)
		lhs := []string{"Runtime[aq]", "Runtime[aq, 'b']", "Runtime[aq, [/q/, 'b']]", "Aq[b]", "Runtime[aq, [/q/]]", "Runtime[aq, [/q/, 'b'], 7]", "Runtime[[/q/, 'b']]", "Runtimes[aq, [/q/, 'b']]", "Runtime[aq, [/q/, 'b', 'c']]", "Runtime[aq, ['q', 'b']]", "Runtime[aq, [/q/, $b]]", "Runtime[aq, {7 => 'b'}]"}[l]
		r := vp.Choose(15)
		rhs := []string{"Bq", "Bq[7]", "[/q/, 'c']", "7", "[/q/]", "['q', 'c']", "[]", "[/q/, 'c', 'd']", "[/q/, c]", "[/q/, /c/]", "['c', /q/]", "$bq", "'c'", "Bq[7][8]", "/q/"}[r]
		m := ""
		switch {
		case l == 3 || l == 7:
			m = "#h"
		case l == 2 && r != 2:
			m = "#X"
		case l != 2 && r > 1:
			m = "#Y"
		}
		src = "type " + m + lhs + " = " + rhs
	}
	expectIssues("p", fill(src))
}

// query returns an arbitrary query
func query(depth int, top bool) string {
	n := 24
	if depth == 0 {
		n = 21
	}
	k := vp.Choose(n)
	switch k {
	case 21:
		return query(depth-1, true) + " and " + query(depth-1, true)
	case 22:
		return query(depth-1, true) + " or " + query(depth-1, true)
	case 23:
		return "(" + query(depth-1, true) + ")"
	}
	return []string{"aq == 7", "aq != 'q'", "'b' == (1 + 7)", "$aq", "aq", "7", "1.7", "'q'", "true", "#W!a", "#Waq < 7", "#Wa >= b", "#W[7]", "#Wundef", "#Wf(7)", "#WAq", "#Waq =~ /q/", "#W\"a${b}\"", "#W-aq", "#Waq in b", "#Waq + 7"}[k]
}

// C18_queries: queries of collectors.
func C18_queries() {
	q := query(lenFor(1, 2), true)
	switch vp.Choose(3) {
	case 0:
		expectIssues("p", fill("Aq <| "+q+" |>"))
	case 1:
		expectIssues("p", fill("A <<| "+q+" |>> { bq => 7, c +> 7 }"))
	case 2:
		expectIssues("p", fill("#Qaq <| "+q+" |>"))
	}
}

// statements that are or are not legal
var stmtRules = []string{
	"aq { 'b': c => 7 }", "aq { 'b': #Nc +> 7, d => 1, #Ne +> 2 }", "aq { 'b': * => $c, d => 7 }", "aq { 'b': * => $c, #Z* => $d, #Z* => $e }", "aq { 'b': * => $c; 'd': * => $e }", "@aq { 'b': }", "@@aq { 'b': }",
	"class { 'q': }", "#d@class { 'q': }", "#d@@class { 'q': }", "Aq { b => 7 }", "#d@Aq { b => 7 }", "#d@@Aq { b => 7 }", "Aq['b'] { c +> 7, d => 1 }", "#d@Aq['b'] { c +> 7 }", "#d@@A['b'] { c => 7 }",
	"A { #Nbq +> 7 }", "#iA { * => $bq }", "#iA['b'] { * => $cq }", "#iA <| |> { * => $bq }", "A <| |> { bq +> 7 }", "#i#iA['b'] { * => $cq, * => $d }", "aq { default: b => 7; ['c']: d => 1 }", "A['b'] -> B['c'] ~> C['d']", "A <| |> -> B['c'] <- a { 'b': } <~ @c { 'd': }",
	"notice 7, aq", "include aq", "$aq.b", "aq(7)", "f(1, #N7 +> 2)", "#d@A['b', #E$b::cq = 1] { c => #gattr }",
}

// C18_statements: rules for resources and the like, in every place.
func C18_statements() {
	x := stmtRules[vp.Choose(len(stmtRules))]
	if strings.Contains(x, "#N7") {
		return
	}
	p := []string{"^", "$x = 1 ^ f(1)", "class z { ^ }", "class z { class y { ^ } }", "define z { ^ }", "node z { ^ }", "function z { ^ }", "if $x { ^ }", "if $x { } else { ^ }", "unless $x { ^ } else { }", "case $x { 1: { ^ } }", "f(1) |$x| { ^ }", "$x.y |$z| { ^ }", "site { ^ }", "application z { ^ }",
		"if $x { } elsif $y { ^ }", "class z { if $x { f(1) |$y| { ^ } } }", "f(1) |$x = (g() |$z| { ^ })| { }", "$x = if $y { ^ }", "r { 'x': y => f() |$z| { ^ } }", "\"${f() |$z| { ^ }}\""}[vp.Choose(21)]
	expectIssues("p", fill(place(p, x)))
}

// C18_relations: operands of relationships.
func C18_relations() {
	ops := []string{"A['q']", "A <| |>", "a { 'q': }", "$aq", "#b#cclass aq { }", "#b#cnode aq { }", "(B['q'])", "f(7)", "[A['q'], $b]", "(#b#bA <| |>)"}
	s := ""
	n := 2
	if !named || vp.Thorough() {
		n += vp.Choose(2)
	}
	for i := 0; i < n; i++ {
		k := vp.Choose(len(ops))
		x := ops[k]
		if i > 0 {
			s += []string{" -> ", " ~> ", " <- ", " <~ "}[vp.Choose(4)]
		}
		s += x
	}
	expectIssues("p", fill(s))
}

// C18_hosts: names of nodes.
func C18_hosts() {
	c := vp.Bytes(1)
	vp.Assume(c[0] < 0x80 && c[0] != 0 && c[0] != '\'' && c[0] != '\\' && c[0] != '#')
	ok := c[0] == '-' || c[0] == '.' || c[0] == '_' || letter(c[0]) || c[0] >= '0' && c[0] <= '9'
	m := ""
	if !ok {
		m = "#R"
	}
	switch vp.Choose(5) {
	case 0:
		expectIssues("p", "node "+m+"'a"+c+"b' { }")
	case 1:
		expectIssues("p", "node 'x', "+m+"'"+c+"', default { }")
	case 2:
		vp.Assume(c[0] != '"' && c[0] != '$')
		expectIssues("p", "node "+m+"\"a"+c+"\", ab.cd, 1.2 { }")
	case 3:
		expectIssues("p", "node #S\"a"+repl(repl(repl(c, '"', 'x'), '$', 'x'), '{', 'x')+"${b}\" { }")
	case 4:
		vp.Assume(c[0] != '/' && c[0] != '\n')
		expectIssues("p", "node /a[^"+repl(repl(repl(c, '[', 'x'), ']', 'x'), '^', 'x')+"]/ inherits 'a b' { }")
	}
}

// C18_reserved: every use of a word that is reserved is reported.
func C18_reserved() {
	w := []string{"attr", "private", "attr", "private"}[vp.Choose(4)]
	i := vp.Choose(len(w))
	c := vp.ByteOf(nameTail)
	w = w[:i] + string([]byte{c}) + w[i+1:]
	x := w
	if w == "attr" || w == "private" {
		x = "#g" + w
	} else {
		vp.Assume(letter(w[0]))
		vp.Cover("ordinary")
	}
	expectIssues("p", []string{"$x = " + x, "f(" + x + ", 1)", "$x = {" + "1 => " + x + "}", "r { 'a': b => " + x + " }", "if $x == " + x + " { }", "$x[" + x + "]", "f() |$x = " + x + "| { }"}[vp.Choose(7)])
}

// statement is a statement and whether it has no effect
type statement struct {
	src  string
	idem bool
}

var atoms = []statement{{"$x = 1", false}, {"7", true}, {"$q", true}, {"f(1)", false}, {"'q'", true}, {"$x + 1", true}, {"[f(1)]", true}, {"$x =~ /q/", false}, {"{a => 1}", true}, {"$x.f", false}, {"\"a${b}\"", true}, {"-$x", true}, {"aq", true}, {"$x[7]", true}, {"include q", false}, {"a { 'q': }", false}, {"A { b => 1 }", false},
	{"A['b'] -> C['d']", false}, {"true and f(1)", true}, {"$x ? { 1 => f(2) }", true}, {"undef", true}, {"Aq", true}, {"/q/", true}, {"!$x", true}, {"A <| |>", false}, {"($x = 1)", false}, {"(7)", true}, {"1 in [2]", true}, {"@(E)\na\n|E\n", true}}

var compounds = []string{"if $x { ^ }", "if $x { ^ } else { 7 }", "if $x { 7 } else { ^ }", "if f() { ^ }", "unless $x { ^ }", "unless $x { } else { ^ }", "case $x { 1: { ^ } }", "case $x { 1: { } f(), 2: { ^ } }", "case f() { 1: { ^ } }", "if $x { } elsif 7 { ^ }", "if $x { } elsif f(1) { 7 } else { ^ }", "case 7 { 1: { 7 } default: { ^ } }"}

// sub returns an arbitrary statement, marked as it is to be in its block
func sub(depth int) statement {
	k := vp.Choose(len(atoms) + depth*len(compounds))
	if k < len(atoms) {
		return atoms[k]
	}
	c := compounds[k-len(atoms)]
	s, idem := stmts(depth-1, 1)
	return statement{strings.Replace(c, "^", s, 1), idem && !strings.Contains(c, "f(")}
}

// stmts returns an arbitrary sequence of statements, and if none has an effect
func stmts(depth, n int) (src string, idem bool) {
	idem = true
	found := false
	for i := 0; i < n; i++ {
		s := sub(depth)
		idem = idem && s.idem
		if i > 0 {
			src += "\n"
		}
		if s.idem && i < n-1 && !found {
			found = true
			src += "#J"
		}
		src += s.src
	}
	return
}

// C18_effect: statements without effect, last or not last.
func C18_effect() {
	n := 1 + vp.Choose(2)
	d := 1
	if n == 2 && !vp.Thorough() {
		d = 0
	}
	if vp.Thorough() && n == 1 {
		d = 2
	}
	s := sub(d)
	m, src := "", s.src
	if s.idem {
		m = "#J"
	}
	if n == 2 {
		td := 1
		if named && !vp.Thorough() {
			td = 0
		}
		t := sub(td)
		src += "\n" + t.src
		s = t
	} else {
		m = ""
	}
	if strings.HasPrefix(s.src, "{") || strings.HasPrefix(s.src, "[") || strings.HasPrefix(s.src, "(") || strings.HasPrefix(s.src, "-") || strings.HasPrefix(s.src, "/") {
		if n == 2 {
			return // may belong to the preceding statement
		}
	}
	last := ""
	if s.idem {
		last = "#K"
	}
	mark := func(end string) string {
		if n == 1 {
			return end + src
		}
		i := strings.LastIndex(src, "\n"+s.src)
		return m + src[:i+1] + end + s.src
	}
	switch vp.Choose(6) {
	case 0:
		expectIssues("p", mark(""))
	case 1:
		expectIssues("p", "class z {\n"+mark(last)+"\n}")
	case 2:
		expectIssues("p", "define z {\n"+mark(last)+"\n}")
	case 3:
		expectIssues("p", "node z {\n"+mark(last)+"\n}")
	case 4:
		expectIssues("p", "function z {\n"+mark("")+"\n}")
	case 5:
		expectIssues("p", "f(1) |$x| {\n"+mark("")+"\n}")
	}
}

// C18_tasks: operations on catalogs in tasks.
func C18_tasks() {
	x := []string{"#Da { 'q': }", "#DA { b => 7 }", "#DA['b'] { c => 7 }", "#DA <| a == 7 |>", "#DA <<| |>>", "#D#DA['q'] -> B['c'] ~> C['d']", "#D@a { 'b': #Nc +> 7 }", "#Dclass aq { f(7) }", "#Dclass A($name, *$b) { 7 }", "#Ddefine aq { 7 }", "#Dnode 'a b' { 7 }", "#Dsite { f(7) }", "#Dapplication a { f(7) }", "#DA produces b { c => 7 }",
		"f(7)", "$aq = 7", "#E$a::bq = 7", "#M$a[7] = 1", "#A$a += 7", "f(#gattr)", "$a = {b => 1, #Gb => 7}", "f() |#B*$a, $b| { }", "#Dclass a { #Db { 'c': d => [7 + #gattr] } }", "plan aq { f(7) }", "$x.run_task('q')", "run_task('q')"}[vp.Choose(26)]
	p := []string{"^", "plan z { ^ }", "plan z($a) { f(1) ^ f(2) }", "function z { ^ }", "if $x { ^ }", "if $x { } else { ^ }", "unless $x { ^ }", "case $x { 1: { ^ } }", "f(1) |$x| { ^ }", "plan z { $x.y |$z| { ^ } }", "plan z { if $x { case $y { 1: { ^ } } } }"}[vp.Choose(11)]
	s := fill(place(p, x))
	s = strings.Replace(s, "\n", " ", -1)
	if strings.HasPrefix(x, "plan") && !strings.HasPrefix(p, "^") {
		return
	}
	expectIssues("t", s)
}

// C18_steps: steps outside and inside of workflows.
func C18_steps() {
	x := []string{"#jworkflow aq { } { }", "#jaction aq { } { f(7) }", "#jresource aq { type => B } { c => 7 }", "#jstatehandler aq { } { $x = 7 }", "#jworkflow a { } { #jworkflow b { } { #jaction c { } { } } #jresource d { } { } }", "#jaction aq { parameters => $b, returns => $c } { #E$a::bq = 7 }", "$x = 1", "#jworkflow a { iteration => times(7) |$i| } { #jaction b { } { #gattr } }"}[vp.Choose(8)]
	p := []string{"^", "$x = 1 ^", "if $x { ^ }", "f() |$x| { ^ }", "function z { ^ }"}[vp.Choose(5)]
	s := fill(place(p, x))
	kind := vp.Choose(3)
	if kind == 2 {
		s = strings.Replace(s, "#j", "", -1)
	}
	src, want := unmark(s)
	e, err := ParseMode("w", src)
	if err != nil {
		vp.Cover("rejected")
		return
	}
	var got []issue.Reported
	switch kind {
	case 0:
		got = validator.ValidatePuppet(e, validator.StrictError).Issues()
	case 1:
		got = validator.ValidateTasks(e).Issues()
	default:
		got = validator.ValidateWorkflow(e).Issues()
	}
	vp.Assert(len(got) == len(want), "number of issues in "+src)
	for _, i := range got {
		found := false
		for k, w := range want {
			if w == issueAt(i) {
				want[k], found = "", true
				break
			}
		}
		vp.Assert(found, "in "+src+" unexpected "+issueAt(i))
	}
}

// places within a value
var valueHoles = []string{
	"(^)", "[1, (^)]", "[^]", "{a => (^)}", "{(^) => a}", "f(^)", "f(1, ^) |$w| { 1 }", "$z.f(^)", "$z.f(^) |$w| { 1 }", "(^).f", "(^).f(1)", "g((^), 2).f()", "$z[(^)]", "(^)[1]", "$z[1, (^)]",
	"if (^) { 1 }", "if $z { ^ }", "if 1 { 2 } else { ^ }", "if 1 { 2 } elsif (^) { 1 }", "unless (^) { 1 }", "unless $z { 1 } else { ^ }", "case (^) { 1: { 2 } }", "case 1 { (^): { 2 } }", "case 1 { 2, (^): { 2 } }", "case 1 { 2: { ^ } }",
	"(^) ? { 1 => 2 }", "$z ? { (^) => 2 }", "$z ? { 2 => (^) }", "$z ? (^) => 1", "-(^)", "!(^)", "(^) + 1", "1 == (^)", "$z and (^)", "(^) or $z", "(^) in $z", "[*(^)]", "f(*(^))", "\"a${(^)}\"", "\"${[1, (^)]}b\"", "(^) =~ /x/", "1 << (^)", "(^) !~ 'b'",
	"@(\"E\")\n  ${(^)}\n  | E\n", "Z[(^)]", "Z(^)",
}

// C18_defaults: an assignment in the default of a parameter is reported, unless a lambda contains it.
func C18_defaults() {
	x := []string{"#L$vq = 7", "#L#A$vq += 7", "$vq == 7", "f() |$y| { $vq = 7 }", "f() |$y = (#L$vq = 7)| { }", "$z.each |$y| { #J1 $vq = 7 }"}[vp.Choose(6)]
	deep := vp.Bool()
	x = valueHolesAround(x)
	if deep {
		x = valueHolesAround(x)
	}
	mode, src := "p", ""
	switch vp.Choose(8) {
	case 0:
		src = "class c($p = ^) { f(1) }"
	case 1:
		src = "define d($o, Z $p = ^, $n = 1) { f(1) }"
	case 2:
		src = "function f($p = ^) { f(1) }"
	case 3:
		src = "f(1) |$p = (^)| { f(1) }"
	case 4:
		src = "$p.f |$o, $p = (^)| { f(1) }"
	case 5:
		mode, src = "e", "<%| $p = (^) |%>a"
	case 6:
		mode, src = "t", "plan pl($p = ^) { f(1) }"
	case 7:
		mode, src = "w", "action a { parameters => ($p = ^) } { 1 }"
	}
	vp.Assume(!deep || vp.Thorough() || src[0] == 'd' && !strings.Contains(x, "|$y =") && !hasByte(x, '+'))
	src = strings.Replace(src, "^", x, 1)
	expectIssues(mode, fill(src))
}

func valueHolesAround(x string) string {
	h := valueHoles[vp.Choose(len(valueHoles))]
	vp.Assume(h[0] != '@' || !strings.Contains(x, "@"))
	vp.Assume(!strings.Contains(h, "\"") || !strings.Contains(x, "\n"))
	return strings.Replace(h, "^", x, 1)
}
