package h

import (
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

const kinds = 5

// newValidator returns a validator of each kind
func newValidator(k int) validator.Validator {
	switch k {
	case 0:
		return validator.NewChecker(validator.StrictOff)
	case 1:
		return validator.NewChecker(validator.StrictWarning)
	case 2:
		return validator.NewChecker(validator.StrictError)
	case 3:
		return validator.NewTasksChecker()
	}
	return validator.NewWorkflowChecker()
}

func listing(is []issue.Reported) string {
	s := ""
	for _, i := range is {
		s += issueAt(i) + " " + i.Severity().String() + " " + i.Error() + "\n"
	}
	return s
}

// run validates with a validator, and returns what was reported.
func run(v validator.Validator, e parser.Expression, src string) string {
	if try(func() { validator.Validate(v, e) }) {
		vp.Fail("validation panics for " + src)
	}
	s := listing(v.Issues())
	vp.Assert(strings.Index(s, "%!") < 0 && strings.Index(s, "<no value>") < 0, "malformed message "+s)
	return s
}

// where of a tree, to see whether it changes
func state(e parser.Expression) string {
	s := ""
	for _, n := range nodesOf(e) {
		s += itoa(n.e.ByteOffset()) + "+" + itoa(n.e.ByteLength()) + " "
	}
	return s
}

var others = []string{"1 = 2\nnotice(1)", "class x { $a = attr $b::c = 1 }", "if"}

// checkPure validates a tree with validators of a kind in different histories.
func checkPure(e parser.Expression, src string, k int, notation bool) {
	pn, st := "", state(e)
	if notation {
		pn = e.ToPN().String()
	}
	v := newValidator(k)
	vp.Assert(len(v.Issues()) == 0, "issues of a new validator")
	first := run(v, e, src)
	vp.Assert(!notation || e.ToPN().String() == pn, "tree changes by validation of "+src)
	vp.Assert(state(e) == st, "positions change by validation of "+src)
	vp.Assert(run(v, e, src) == first, "second validation differs for "+src)
	w := newValidator(k)
	run(w, mustParse("p", others[few(2)]), "other")
	vp.Assert(run(w, e, src) == first, "validation after another tree differs for "+src)
	vp.Assert(listing(v.Issues()) == first, "another validator changes the issues of "+src)
	var got string
	switch k {
	case 0, 1, 2:
		got = listing(validator.ValidatePuppet(e, levels[k]).Issues())
	case 3:
		got = listing(validator.ValidateTasks(e).Issues())
	case 4:
		got = listing(validator.ValidateWorkflow(e).Issues())
	}
	vp.Assert(got == first, "function and validator differ for "+src)
	v.Clear()
	vp.Assert(len(v.Issues()) == 0, "issues after they were cleared")
}

// C22_templates: every construct with each kind of validator.
func C22_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err == nil {
		checkPure(e, src, vp.Choose(kinds), true)
	}
}

// C22_problems: trees with problems.
func C22_problems() {
	src, _ := unmark(fill(problem()))
	p := []string{"^", "class z { ^\nf(1) }", "f() |$x| { ^\n1 }", "function z { ^ }\n1"}[vp.Choose(4)]
	src = strings.Replace(p, "^", src, 1)
	e, err := ParseMode("p", src)
	if err == nil {
		checkPure(e, src, vp.Choose(kinds), true)
	}
}

// C22_bytes: arbitrary sources.
func C22_bytes() {
	src := vp.Bytes(lenFor(3, 4))
	single := vp.Bool()
	e, err := parser.CreateParser().Parse("", src, single)
	if err == nil {
		checkPure(e, src, vp.Choose(kinds), false)
	}
}

// C22_parser: parsing and validating at once is the same as one after the
// other.
func C22_parser() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "s" {
		return
	}
	src, _ := holes(t)
	checkBoth(t.mode, src, vp.Choose(kinds))
}

// C22_both: likewise for problems.
func C22_both() {
	src, _ := unmark(fill(problem()))
	checkBoth("p", src, vp.Choose(kinds))
}

// C22_source: likewise for arbitrary sources.
func C22_source() {
	src := vp.Bytes(lenFor(3, 4))
	checkBoth("p", src, 2)
}

func checkBoth(mode, src string, k int) {
	pv := validator.NewParserValidator(parser.CreateParser(optionsOf(mode)...), newValidator(k))
	for i := 0; i < 2; i++ {
		e, err := parser.CreateParser(optionsOf(mode)...).Parse("x.pp", src, false)
		var got parser.Expression
		var res issue.Result
		bad := try(func() { got, res = pv.Parse("x.pp", src) })
		if err != nil {
			r, ok := err.(issue.Reported)
			if !ok {
				return
			}
			vp.Assert(!bad && got == nil && res != nil, "result for an error in "+src)
			is := res.Issues()
			vp.Assert(len(is) == 1 && is[0].Error() == r.Error() && is[0].Code() == r.Code() && res.Error(), "wrong error for "+src)
		} else {
			vp.Assert(!bad && got != nil, "no tree for "+src)
			v := newValidator(k)
			want := run(v, e, src)
			vp.Assert(state(got) == state(e), "other tree for "+src)
			if want == "" {
				vp.Assert(res == nil, "result without issues for "+src)
			} else {
				vp.Assert(res != nil && listing(res.Issues()) == want, "other issues for "+src)
				fatal := false
				for _, i := range v.Issues() {
					fatal = fatal || i.Severity() == issue.SeverityError
				}
				vp.Assert(res.Error() == fatal, "wrong result for "+src)
			}
		}
		if i == 0 {
			// in between, something else
			before := ""
			if res != nil {
				before = listing(res.Issues())
			}
			other := others[vp.Choose(len(others))]
			try(func() { pv.Parse("y.pp", other) })
			if res != nil {
				vp.Assert(listing(res.Issues()) == before, "issues of a result change for "+src)
			}
		}
	}
}

// C22_grammar: combinations of constructs.
func C22_grammar() {
	g := someGram(1, 2)
	e, src, _ := g.tree()
	checkPure(e, src, vp.Choose(kinds), true)
}

// C22_single: every node of a tree as the tree that is validated, after
// other trees.
func C22_single() {
	t := &tmpls[vp.Choose(len(tmpls))]
	e, err := ParseMode(t.mode, t.src)
	if err != nil {
		return
	}
	k := vp.Choose(kinds)
	ns := nodesOf(e)
	n := ns[vp.Choose(len(ns))].e
	want, ok := runAny(newValidator(k), n)
	v := newValidator(k)
	switch vp.Choose(4) {
	case 0:
		runAny(v, e)
	case 1:
		runAny(v, ns[len(ns)-1].e)
	case 2:
		runAny(v, mustParse("p", "function x { class y { f() |$x| { $z } } }"))
	case 3:
		runAny(v, mustParse("p", "class x { class y { } $x }").(*parser.Program).Definitions()[0])
	}
	got, ok2 := runAny(v, n)
	vp.Assert(ok == ok2 && (!ok || got == want), "validation after others gives "+got+" instead of "+want+" for "+n.String()+" in "+t.src)
}

// runAny validates a tree.
func runAny(v validator.Validator, e parser.Expression) (s string, ok bool) {
	if try(func() { validator.Validate(v, e) }) {
		return "", false
	}
	return listing(v.Issues()), true
}

// C22_deep: constructs nested many times in each other.
func C22_deep() {
	n := 40
	if vp.Thorough() {
		n = 80
	}
	src := deep(n)
	e, err := ParseMode("p", src)
	if err == nil {
		run(validator.NewChecker(validator.StrictError), e, src)
	}
}

// C22_slots: whatever the parser accepts, in whatever place, can be validated.
func C22_slots() {
	src := slotted()
	k := 2
	if vp.Thorough() {
		k = vp.Choose(kinds)
	} else if vp.Bool() {
		k = 3
	}
	e, err := parser.CreateParser(optionsOf([]string{"p", "p", "p", "t", "w"}[k])...).Parse("", src, false)
	if err != nil {
		return
	}
	if first := run(newValidator(k), e, src); vp.Thorough() {
		vp.Assert(run(newValidator(k), e, src) == first, "second validation differs for "+src)
	}
}
