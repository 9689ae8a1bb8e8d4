package h

import (
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

var levels = []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}

// checkLevels asserts that the issues of a tree at each strictness are the
// same, apart from the severity of those that depend on the strictness.
func checkLevels(e parser.Expression) int {
	all := validator.ValidatePuppet(e, validator.StrictError).Issues()
	strict := levels[vp.Choose(3)]
	got := validator.ValidatePuppet(e, strict).Issues()
	k := 0
	for _, i := range all {
		want := issue.Severity(issue.SeverityError)
		switch i.Code() {
		case validator.ValidateFutureReservedWord:
			want = issue.SeverityDeprecation
		case validator.ValidateDuplicateKey, validator.ValidateIdemExpressionNotLast:
			vp.Assert(i.Severity() == issue.SeverityError, "not an error: "+i.Error())
			if strict == validator.StrictOff {
				continue
			}
			want = issue.SeverityWarning
			if strict == validator.StrictError {
				want = issue.SeverityError
			}
		}
		if k >= len(got) {
			vp.Fail("not reported: " + i.Error())
		}
		vp.Assert(got[k].Severity() == want, "severity of "+i.Error()+" is "+got[k].Severity().String())
		vp.Assert(got[k].Code() == i.Code() && got[k].Error() == i.Error() && issueAt(got[k]) == issueAt(i), i.Error()+" is now "+got[k].Error())
		k++
	}
	vp.Assert(k == len(got), "additional issues")
	return k
}

// problem returns an arbitrary statement that is in error, or not
func problem() string {
	k := vp.Choose(len(exprRules) + len(stmtRules) + len(moreRules))
	if k < len(exprRules) {
		return "f((" + exprRules[k] + "))"
	}
	k -= len(exprRules)
	if k < len(stmtRules) {
		if strings.Contains(stmtRules[k], "#N7") {
			return "f(2)"
		}
		return stmtRules[k]
	}
	return moreRules[k-len(stmtRules)]
}

var moreRules = []string{
	"class zq($a, #H$a) { #K7 }", "#edefine zq($name) { f(7) }", "function z >> #IApplication { 7 }", "#fclass string { }", "type #fString = #Q7", "node #R'a b' { #J7 f(1) }", "#cclass a { }", "if $x { #cdefine dq { } #afunction b { } }",
	"#Qa <| #W[7] |>", "#J7", "#J[{a => 7, #Ga => 1}]", "f({'q' => 1, #G'q' => 2, #G'q' => 3})", "case 1 { #bA <| |>: { } }", "type Zq = #IConsumes", "#iA produces B { * => 7 }", "class zq { #K{a => 7, #Ga => 1} }",
}

// C16_levels: the problem statements alone, in a place, at each strictness.
func C16_levels() {
	src, _ := unmark(fill(place(exprPlaces[vp.Choose(len(exprPlaces))], exprRules[vp.Choose(len(exprRules))])))
	checkLevels(mustParse("p", src))
}

// C16_more: all other problems.
func C16_more() {
	x := problem()
	if strings.HasPrefix(x, "#cclass") {
		x = x[2:]
	}
	src, _ := unmark(fill(x + "\n$z = 1"))
	checkLevels(mustParse("p", src))
}

// C16_templates: every construct.
func C16_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "s" || t.mode == "b" {
		return
	}
	src, _ := holes(t)
	checkLevels(mustParse(t.mode, src))
}

// C16_bytes: arbitrary sources.
func C16_bytes() {
	s := []string{"", "1\n", "{1=>2,1=>", "class a{1\n", "if 1{1\n"}[vp.Choose(5)]
	end := map[string]string{"{1=>2,1=>": "}", "class a{1\n": "}", "if 1{1\n": "}"}[s]
	e, err := ParseMode("p", s+vp.Bytes(lenFor(3, 4))+end)
	if err == nil {
		checkLevels(e)
	}
}

func mustParse(mode, src string) parser.Expression {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	return e
}

// C16_pairs: a problem is reported whatever precedes or follows it.
func C16_pairs() {
	a, b := problem(), problem()
	if strings.HasPrefix(a, "#cclass") {
		a = a[2:]
	}
	if strings.HasPrefix(b, "#cclass") {
		b = b[2:]
	}
	if strings.HasPrefix(b, "#J") {
		if strings.HasPrefix(a, "#J") {
			b = b[2:] // only the first one is reported
		}
	}
	expectIssues("p", fill(a+"\n"+b+"\n$z = 1"))
}

// C16_names: names of strictness.
func C16_names() {
	var s string
	if vp.Bool() {
		s = vp.BytesOf("ofFerRwaE", lenFor(4, 6))
	} else {
		w := []string{"", "off", "warning", "error"}[vp.Choose(4)]
		b := []byte(w)
		for i := range b {
			if vp.Bool() {
				b[i] -= 32
			}
		}
		if len(w) > 0 && vp.Bool() {
			b[vp.Choose(len(b))] = vp.ByteOf("abefginorwABEFGINORW ")
		}
		s = string(b)
	}
	low := strings.ToLower(s)
	var got validator.Strictness
	bad := try(func() { got = validator.Strict(s) })
	switch low {
	case "", "off":
		vp.Assert(!bad && got == validator.StrictOff && got.String() == "off", "strictness "+s)
	case "warning":
		vp.Assert(!bad && got == validator.StrictWarning && got.String() == "warning", "strictness "+s)
	case "error":
		vp.Assert(!bad && got == validator.StrictError && got.String() == "error", "strictness "+s)
	default:
		vp.Assert(bad, "strictness "+s+" accepted")
	}
}

type demoter interface {
	Demote(code issue.Code, severity issue.Severity)
}

// C16_demote: the severity of a kind of issues can be changed if it is not
// a hard one, and nothing else changes.
func C16_demote() {
	v := validator.NewChecker(validator.StrictError)
	d, ok := v.(demoter)
	if !ok {
		return
	}
	soft := []issue.Code{validator.ValidateFutureReservedWord, validator.ValidateDuplicateKey, validator.ValidateIdemExpressionNotLast}
	sev := []issue.Severity{issue.SeverityIgnore, issue.SeverityDeprecation, issue.SeverityWarning, issue.SeverityError}[vp.Choose(4)]
	k := vp.Choose(len(soft) + len(hard))
	src := "{1 => 2, 1 => 3} function f >> Application { } $a[1] = 2"
	e := mustParse("p", src)
	if k >= len(soft) {
		bad := try(func() { d.Demote(issue.Code("VALIDATE_"+hard[k-len(soft)]), sev) })
		vp.Assert(bad, hard[k-len(soft)]+" can be demoted")
		k = -1
	} else {
		d.Demote(soft[k], sev)
	}
	validator.Validate(v, e)
	want := map[issue.Code]issue.Severity{soft[0]: issue.SeverityDeprecation, soft[1]: issue.SeverityError, soft[2]: issue.SeverityError, validator.ValidateIllegalAssignmentViaIndex: issue.SeverityError}
	if k >= 0 {
		want[soft[k]] = sev
		if sev == issue.SeverityIgnore {
			delete(want, soft[k])
		}
	}
	is := v.Issues()
	vp.Assert(len(is) == len(want), "number of issues")
	for _, i := range is {
		vp.Assert(want[i.Code()] == i.Severity(), "severity of "+i.Error())
	}
}

var hard = []string{"APPENDS_DELETES_NO_LONGER_SUPPORTED", "CAPTURES_REST_NOT_LAST", "CAPTURES_REST_NOT_SUPPORTED", "CATALOG_OPERATION_NOT_SUPPORTED", "CROSS_SCOPE_ASSIGNMENT", "DUPLICATE_DEFAULT", "DUPLICATE_PARAMETER", "IDEM_NOT_ALLOWED_LAST", "ILLEGAL_ASSIGNMENT_CONTEXT", "ILLEGAL_ASSIGNMENT_VIA_INDEX", "ILLEGAL_ATTRIBUTE_APPEND",
	"ILLEGAL_CLASSREF", "ILLEGAL_DEFINITION_NAME", "ILLEGAL_EXPRESSION", "ILLEGAL_HOSTNAME_CHARS", "ILLEGAL_HOSTNAME_INTERPOLATION", "ILLEGAL_NUMERIC_ASSIGNMENT", "ILLEGAL_NUMERIC_PARAMETER", "ILLEGAL_PARAMETER_NAME", "ILLEGAL_QUERY_EXPRESSION", "ILLEGAL_REGEXP_TYPE_MAPPING", "ILLEGAL_SINGLE_TYPE_MAPPING", "INVALID_STEP_STYLE",
	"MULTIPLE_ATTRIBUTES_UNFOLD", "NOT_ABSOLUTE_TOP_LEVEL", "NOT_RVALUE", "NOT_TOP_LEVEL", "NOT_VIRTUALIZABLE", "RESERVED_PARAMETER", "RESERVED_TYPE_NAME", "RESERVED_WORD", "UNSUPPORTED_EXPRESSION", "UNSUPPORTED_OPERATOR_IN_CONTEXT", "WORKFLOW_OPERATION_NOT_SUPPORTED"}

// C16_grammar: combinations of constructs.
func C16_grammar() {
	e, _, _ := someGram(2, 3).tree()
	checkLevels(e)
}

// C16_several: validators of different strictness don't influence each other.
func C16_several() {
	src, _ := unmark(fill(problem()))
	e := mustParse("p", src+"\n$z = 1")
	var want, got []string
	for _, l := range levels {
		want = append(want, listing(validator.ValidatePuppet(e, l).Issues()))
	}
	var vs []validator.Validator
	for _, l := range levels {
		vs = append(vs, validator.NewChecker(l))
	}
	validator.NewTasksChecker()
	validator.NewWorkflowChecker()
	for _, v := range vs {
		validator.Validate(v, e)
	}
	for i, v := range vs {
		got = append(got, listing(v.Issues()))
		vp.Assert(got[i] == want[i], "with other validators "+got[i]+" instead of "+want[i]+" for "+src)
	}
}
