package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// qualify returns the name with the names around it.
func qualify(stack []string, name string) string {
	s := ""
	for _, n := range append(append([]string{}, stack...), name) {
		if s == "" {
			s = n
		} else if strings.HasPrefix(n, "::") {
			s += n
		} else {
			s += "::" + n
		}
	}
	return s
}

func push(stack []string, name string) []string {
	return append(append([]string{}, stack...), name)
}

// definition returns a definition or a construct with a definition in it, for
// the mode and with up to the given depth, and its notation.
func definition(mode string, depth int, stack []string, c string) (src, pn string) {
	inner := func(st []string) (string, string) {
		if depth == 0 {
			return "", ""
		}
		s, p := definition(mode, depth-1, st, c)
		switch vp.Choose(3) {
		case 1:
			return s + " class v" + c + " { }", p + ` (class {:name "` + qualify(st, "v"+c) + `" :body []})`
		case 2:
			return "class ::u { class t { } } " + s, `(class {:name "` + qualify(st, "u") + `" :body [(class {:name "` + qualify(st, "u::t") + `" :body []})]}) ` + p
		}
		return s, p
	}
	n := 22
	if mode == "t" {
		n = 24
	}
	if mode == "w" {
		n = 30
	}
	switch vp.Choose(n) {
	case 0:
		s, p := inner(push(stack, "x"+c))
		return "class x" + c + " { " + s + " }", `(class {:name "` + qualify(stack, "x"+c) + `" :body [` + p + `]})`
	case 1:
		s, p := inner(push(stack, "a::x"+c))
		return "class a::x" + c + " { " + s + " }", `(class {:name "` + qualify(stack, "a::x"+c) + `" :body [` + p + `]})`
	case 2:
		s, p := inner(push(stack, "x"+c))
		return "class ::x" + c + "($y = 1) inherits b { " + s + " }", `(class {:name "` + qualify(stack, "x"+c) + `" :parent "b" :params {:y {:value 1}} :body [` + p + `]})`
	case 3:
		s, p := inner(stack)
		return "define x" + c + " { " + s + " }", `(define {:name "x` + c + `" :body [` + p + `]})`
	case 4:
		s, p := inner(stack)
		return "function x" + c + " { " + s + " }", `(function {:name "x` + c + `" :body [` + p + `]})`
	case 5:
		s, p := inner(stack)
		return "application x" + c + " { " + s + " }", `(application {:name "x` + c + `" :body [` + p + `]})`
	case 6:
		s, p := inner(stack)
		return "node x" + c + " { " + s + " }", `(node {:matches ["x` + c + `"] :body [` + p + `]})`
	case 7:
		s, p := inner(stack)
		if s == "" {
			return "site { }", "(site)"
		}
		return "site { " + s + " }", "(site " + p + ")"
	case 8:
		return "A produces B" + c + " { }", `(produces (qr "A") ["` + qualify(stack, "B"+c) + `"])`
	case 9:
		return "a consumes B" + c + " { }", `(consumes (qn "a") ["` + qualify(stack, "B"+c) + `"])`
	case 10:
		return "attr produces B" + c + " { }", `(produces (qn "` + qualify(stack, "attr") + `") ["` + qualify(stack, "B"+c) + `"])`
	case 11:
		return "type X" + c + " = Y", `(type-alias "X` + c + `" (qr "Y"))`
	case 12:
		s, p := inner(stack)
		return "if 1 { " + s + " } else { class x" + c + " { } }", `(if {:test 1 :then [` + p + `] :else [(class {:name "` + qualify(stack, "x"+c) + `" :body []})]})`
	case 13:
		s, p := inner(stack)
		return "f() |$y| { " + s + " }", `(invoke {:functor (qn "f") :args [] :block (lambda {:params {:y {}} :body [` + p + `]})})`
	case 14:
		s, p := inner(stack)
		return "A { b => f() |$y| { " + s + " } }", `(resource-defaults {:type (qr "A") :ops [(=> "b" (call {:functor (qn "f") :args [] :block (lambda {:params {:y {}} :body [` + p + `]})}))]})`
	case 15:
		s, p := inner(stack)
		return "a { 'b': c => f() |$y| { " + s + " } }", `(resource {:type (qn "a") :bodies [{:title "b" :ops [(=> "c" (call {:functor (qn "f") :args [] :block (lambda {:params {:y {}} :body [` + p + `]})}))]}]})`
	case 16:
		s, p := inner(stack)
		return "notice { b => f() |$y| { " + s + " } }", `(invoke {:functor (qn "notice") :args [(hash (=> (qn "b") (call {:functor (qn "f") :args [] :block (lambda {:params {:y {}} :body [` + p + `]})})))]})`
	case 17:
		s, p := inner(push(stack, "x"+c))
		return "class x" + c + "($y = f() |$z| { " + s + " }) { class w { } }", `(class {:name "` + qualify(stack, "x"+c) + `" :params {:y {:value (call {:functor (qn "f") :args [] :block (lambda {:params {:z {}} :body [` + p + `]})})}} :body [(class {:name "` + qualify(push(stack, "x"+c), "w") + `" :body []})]})`
	case 18:
		s, p := inner(stack)
		return "case 1 { 2: { " + s + " } }", `(case 1 [{:when [2] :then [` + p + `]}])`
	case 19:
		s, p := inner(stack)
		return "$y = \"a${f() |$z| { " + s + " }}b\"", `(= (var "y") (concat "a" (str (call {:functor (qn "f") :args [] :block (lambda {:params {:z {}} :body [` + p + `]})})) "b"))`
	case 20:
		return "A produces ::B" + c + " { }", `(produces (qr "A") ["` + qualify(stack, "::B"+c) + `"])`
	case 21:
		s, p := inner(stack)
		return "define ::x" + c + " { " + s + " }", `(define {:name "::x` + c + `" :body [` + p + `]})`
	case 22:
		if mode == "t" {
			s, p := inner(push(stack, "x"+c))
			return "plan x" + c + "() { " + s + " }", `(plan {:name "x` + c + `" :body [` + p + `]})`
		}
		return "resource x" + c + " { }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "resource"})`
	case 23:
		if mode == "t" {
			s, p := inner(push(stack, "::x"+c))
			return "plan ::x" + c + "($y = 1) >> A { " + s + " }", `(plan {:name "::x` + c + `" :params {:y {:value 1}} :body [` + p + `] :returns (qr "A")})`
		}
		s, p := inner(stack)
		if p != "" {
			p = " " + p
		}
		return "action x" + c + " { } { " + s + " }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "action" :definition (block` + p + `)})`
	case 24:
		s, p := wfStep(depth-1, push(stack, "x"+c), c)
		return "workflow x" + c + " { } { " + s + " }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "workflow" :definition (block ` + p + `)})`
	case 25:
		s, p := wfStep(depth-1, push(stack, "x"+c), c)
		return "workflow x" + c + " { typespace => 'q' } { " + s + " } class w { }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "workflow" :properties (hash (=> (qn "typespace") "q")) :definition (block ` + p + `)}) (class {:name "` + qualify(stack, "w") + `" :body []})`
	case 26:
		return "workflow x" + c + " { } { }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "workflow"})`
	case 27:
		s, p := wfStep(depth-1, push(stack, "::x"+c), c)
		return "workflow ::x" + c + " { } { " + s + " }", `(step {:name "` + qualify(stack, "::x"+c) + `" :style "workflow" :definition (block ` + p + `)})`
	case 28:
		return "workflow x" + c + " { } class w { }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "workflow"}) (class {:name "` + qualify(stack, "w") + `" :body []})`
	}
	s, p := inner(stack)
	if p != "" {
		p = " " + p
	}
	return "stateHandler x" + c + " { } { " + s + " }", `(step {:name "` + qualify(stack, "x"+c) + `" :style "stateHandler" :definition (block` + p + `)})`
}

// wfStep returns steps of a workflow.
func wfStep(depth int, stack []string, c string) (src, pn string) {
	n := 3
	if depth > 0 {
		n = 6
	}
	switch vp.Choose(n) {
	case 5:
		s, p := wfStep(depth-1, push(stack, "::s"+c), c)
		return "workflow ::s" + c + " { } { " + s + " }", `(step {:name "` + qualify(stack, "::s"+c) + `" :style "workflow" :definition (block ` + p + `)})`
	case 1:
		return "resource a::s" + c + " { } resource r { }", `(step {:name "` + qualify(stack, "a::s"+c) + `" :style "resource"}) (step {:name "` + qualify(stack, "r") + `" :style "resource"})`
	case 2:
		return "stateHandler ::s" + c + " { } { 1 }", `(step {:name "` + qualify(stack, "::s"+c) + `" :style "stateHandler" :definition (block 1)})`
	case 3:
		s, p := wfStep(depth-1, push(stack, "s"+c), c)
		return "workflow s" + c + " { } { " + s + " } resource r { }", `(step {:name "` + qualify(stack, "s"+c) + `" :style "workflow" :definition (block ` + p + `)}) (step {:name "` + qualify(stack, "r") + `" :style "resource"})`
	case 4:
		s, p := definition("w", depth-1, stack, c)
		return "action s" + c + " { } { " + s + " } resource r { }", `(step {:name "` + qualify(stack, "s"+c) + `" :style "action" :definition (block ` + p + `)}) (step {:name "` + qualify(stack, "r") + `" :style "resource"})`
	}
	return "resource s" + c + " { }", `(step {:name "` + qualify(stack, "s"+c) + `" :style "resource"})`
}

func depthFor() int {
	if vp.Thorough() {
		return 2
	}
	return 1
}

// C23_nested: definitions nested in definitions and other constructs, in each
// mode.
func C23_nested() {
	mode := []string{"p", "t", "w"}[vp.Choose(3)]
	c := vp.BytesOf(nameTail, 1)
	stack := []string{}
	pre, post, ppre, ppost := "", "", "", ""
	switch vp.Choose(3) {
	case 1:
		stack = []string{"m"}
		pre, post = "class m { ", " class k { } }"
		ppre, ppost = `(class {:name "m" :body [`, ` (class {:name "m::k" :body []})]})`
	case 2:
		stack = []string{"m", "::n::o"[2:]}
		pre, post = "class m { class ::n::o { ", " } class k { } }"
		ppre, ppost = `(class {:name "m" :body [(class {:name "m::n::o" :body [`, `]}) (class {:name "m::k" :body []})]})`
	}
	s, p := definition(mode, depthFor(), stack, c)
	expectPN(mode, pre+s+post+" class z { }", "(block "+ppre+p+ppost+` (class {:name "z" :body []}))`)
}

// C23_steps: deeply nested steps.
func C23_steps() {
	c := vp.BytesOf(nameTail, 1)
	s, p := wfStep(depthFor()+1, []string{"m"}, c)
	expectPN("w", "workflow m { } { "+s+" } class z { }", `(block (step {:name "m" :style "workflow" :definition (block `+p+`)}) (class {:name "z" :body []}))`)
}

// C23_names: names are retained character by character.
func C23_names() {
	a, b := "q"+vp.BytesOf(nameTail+"ABCDEFGHIJKLMNOPQRSTUVWXYZ", lenFor(2, 3)), "q"+vp.BytesOf(nameTail, 1)
	d := []string{"", "::"}[vp.Choose(2)]
	expectPN("p", "class "+d+a+" { class "+d+b+" { class c::"+a+" { } } class "+b+" { } }",
		`(block (class {:name "`+a+`" :body [(class {:name "`+a+"::"+b+`" :body [(class {:name "`+a+"::"+b+"::c::"+a+`" :body []})]}) (class {:name "`+a+"::"+b+`" :body []})]}))`)
}

// C23_failed: names after a parse that failed within definitions.
func C23_failed() {
	mode := []string{"p", "t", "w"}[vp.Choose(3)]
	c := vp.BytesOf(nameTail, 1)
	s := []string{"class m { ^", "class m { class n { ^", "class m { ^ } }", "class m { ^ , }", "class n { f(^) }"}[vp.Choose(5)]
	d, _ := definition(mode, 0, nil, c)
	s = strings.Replace(s, "^", d, 1)
	cut := vp.Choose(len(s))
	ps := parser.CreateParser(optionsOf(mode)...)
	ps.Parse("", s[:cut], false)
	ps.Parse("", s, false)
	e, err := ps.Parse("", "class z { class y"+c+" { } }\nA produces B { }", false)
	if err != nil {
		vp.Fail("rejected after " + s + ": " + err.Error())
	}
	got := e.ToPN().String()
	vp.Assert(got == `(block (class {:name "z" :body [(class {:name "z::y`+c+`" :body []})]}) (produces (qr "A") ["B"]))`, "after "+s+": "+got)
}

// C23_definitions: the list of the definitions of a program has the same names.
func C23_definitions() {
	mode := []string{"p", "t", "w"}[vp.Choose(3)]
	s, _ := definition(mode, depthFor(), []string{"m"}, "q")
	e := mustParse(mode, "class m { "+s+" }")
	notation := e.ToPN().String()
	for _, d := range e.(*parser.Program).Definitions() {
		if n, ok := d.(parser.NamedDefinition); ok {
			vp.Assert(strings.Contains(notation, `"`+n.Name()+`"`), "definition "+n.Name()+" is not in "+notation)
		}
	}
}

// C23_iteration: names after and in steps with and without iteration and body.
func C23_iteration() {
	s, p := "", ""
	n := 1 + vp.Choose(2)
	for i := 0; i < n; i++ {
		style := []string{"workflow", "action", "resource", "stateHandler"}[vp.Choose(4)]
		name := "s" + itoa(i)
		src := style + " " + name + " { }"
		full := "m::" + name
		pn := `(step {:name "` + full + `" :style "` + style + `"`
		iter := vp.Choose(4)
		if iter > 0 {
			v := name
			src += " "
			if vp.Bool() {
				src += "$v = "
				v = "v"
			}
			f := []string{"", "times", "range", "each"}[iter]
			src += f + "($n) |$i|"
			pn += ` :properties (hash (=> (qn "iteration") (hash (=> (qn "name") (qn "` + v + `")) (=> (qn "function") (qn "` + f + `")) (=> (qn "params") (array (param {:name "n"}))) (=> (qn "vars") (array (param {:name "i"}))))))`
		}
		body := vp.Choose(3)
		if iter > 0 && body == 0 {
			body = 1
		}
		if body > 0 || style == "action" || style == "stateHandler" {
			src += " {"
			if body == 2 && style == "workflow" {
				src += " resource x { } "
				pn += ` :definition (block (step {:name "` + full + `::x" :style "resource"}))`
			} else if style == "action" || style == "stateHandler" {
				pn += ` :definition (block`
				if body == 2 {
					src += " class y { } "
					pn += ` (class {:name "m::y" :body []})`
				}
				pn += ")"
			} else if body == 2 {
				src += " a => 1 "
				pn += ` :definition (hash (=> (qn "a") 1))`
			}
			src += "}"
		}
		s += src + "\n"
		if i > 0 {
			p += " "
		}
		p += pn + "})"
	}
	switch vp.Choose(2) {
	case 0:
		expectPN("w", "workflow m { } { "+s+" resource z { } }\nclass z { }", `(block (step {:name "m" :style "workflow" :definition (block `+p+` (step {:name "m::z" :style "resource"}))}) (class {:name "z" :body []}))`)
	case 1:
		expectPN("w", "class m { "+s+" class z { } }", `(block (class {:name "m" :body [`+p+` (class {:name "m::z" :body []})]}))`)
	}
}
