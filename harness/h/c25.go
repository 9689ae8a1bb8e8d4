package h

import (
	"strings"

	"vpharness/vp"
)

const nameTail = "abcdefghijklmnopqrstuvwxyz0123456789_"

// holes replaces the q, j, and 7 of a template by symbolic characters.
func holes(t *tmpl) (src, pn string) {
	src, pn = t.src, t.pn
	if hasByte(src, 'q') {
		c := vp.ByteOf(nameTail)
		src, pn = repl(src, 'q', c), repl2(pn, 'q', c)
	}
	if hasByte(src, 'j') {
		c := vp.ByteOf(nameTail)
		src, pn = restoreWord(repl(src, 'j', c), src, "Object"), repl2(pn, 'j', c)
	}
	if hasByte(src, '7') {
		c := vp.ByteOf("123456789")
		src, pn = repl(src, '7', c), repl(pn, '7', c)
	}
	return
}

// repl2 is like repl but retains the words that belong to the notation
func repl2(s string, o, n byte) string {
	return restoreWord(repl(s, o, n), s, "(qn ", "(qr ", "-query", ":query ", "Object")
}

// restoreWord restores the given words of the original
func restoreWord(s, orig string, words ...string) string {
	b := []byte(s)
	for _, w := range words {
		for i := 0; i+len(w) <= len(orig); i++ {
			if orig[i:i+len(w)] == w {
				copy(b[i:], w)
			}
		}
	}
	return string(b)
}

func hasByte(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}

// C25_templates: every construct yields the expected tree, whatever its
// names and numbers are.
func C25_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, pn := holes(t)
	expectPN(t.mode, src, pn)
}

// C25_grammar: all combinations of alternatives and optional parts of the
// constructs, within the number of deviations.
func C25_grammar() {
	g := &gram{mode: []string{"p", "t", "w", "e"}[vp.Choose(4)], left: 3}
	if vp.Thorough() {
		g.left = 4
	}
	src, pn := g.source()
	expectPN(g.mode, src, pn)
}

// C25_options: all combinations of optional parts of a statement itself.
func C25_options() {
	g := &gram{mode: []string{"p", "t", "w", "e"}[vp.Choose(4)], kind: true, free: 3}
	if vp.Thorough() {
		g.free, g.left = 4, 1
	}
	src, pn := g.source()
	expectPN(g.mode, src, pn)
}

var statementNames = []string{"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err", "fail", "import",
	"break", "next", "return"}

// mode, source, tree when N is the name of a statement function, and when it is not
var statementForms = [][4]string{
	{"p", "N 'q'", `(invoke {:functor (qn "N") :args ["q"]})`, `(qn "N") "q"`},
	{"p", "N $q, 7\n8", `(invoke {:functor (qn "N") :args [(var "q") 7]}) 8`, ""},
	{"p", "N [7]", `(invoke {:functor (qn "N") :args [(array 7)]})`, `(qn "N") (array 7)`},
	{"p", "N[7]", `(invoke {:functor (qn "N") :args [(array 7)]})`, `(access (qn "N") 7)`},
	{"p", "N { 'q' => 7 }", `(invoke {:functor (qn "N") :args [(hash (=> "q" 7))]})`, ""},
	{"p", "N { }", `(invoke {:functor (qn "N") :args [(hash)]})`, ""},
	{"p", "N", `(qn "N")`, `(qn "N")`},
	{"p", "$y = N 7", `(= (var "y") (qn "N")) 7`, `(= (var "y") (qn "N")) 7`},
	{"p", "N(7) 8", `(invoke {:functor (qn "N") :args [7]}) 8`, `(invoke {:functor (qn "N") :args [7]}) 8`},
	{"p", "N -7", `(- (qn "N") 7)`, `(- (qn "N") 7)`},
	{"p", "N $q + f(7), g(7)", `(invoke {:functor (qn "N") :args [(+ (var "q") (call {:functor (qn "f") :args [7]})) (call {:functor (qn "g") :args [7]})]})`, ""},
	{"p", "$x.f |$y| { N 7 }", `(call-method {:functor (. (var "x") (qn "f")) :args [] :block (lambda {:params {:y {}} :body [(invoke {:functor (qn "N") :args [7]})]})})`,
		`(call-method {:functor (. (var "x") (qn "f")) :args [] :block (lambda {:params {:y {}} :body [(qn "N") 7]})})`},
	{"p", "N 7 N 8", `(invoke {:functor (qn "N") :args [7]}) (invoke {:functor (qn "N") :args [8]})`, `(qn "N") 7 (qn "N") 8`},
	{"p", "$x N", `(var "x") (qn "N")`, `(var "x") (qn "N")`},
	{"p", "$x.N 7", `(call-method {:functor (. (var "x") (qn "N")) :args []}) 7`, `(call-method {:functor (. (var "x") (qn "N")) :args []}) 7`},
	{"p", "q::N 7", `(qn "q::N") 7`, `(qn "q::N") 7`},
	{"p", "::N 7", `(qn "::N") 7`, `(qn "::N") 7`},
	{"p", "if true { N } 7", `(if {:test true :then [(qn "N")]}) 7`, `(if {:test true :then [(qn "N")]}) 7`},
	{"p", "case 7 { 7: { N $q } }", `(case 7 [{:when [7] :then [(invoke {:functor (qn "N") :args [(var "q")]})]}])`, `(case 7 [{:when [7] :then [(qn "N") (var "q")]}])`},
	{"e", "<% N %>q", `(qn "N") (render-s "q")`, `(qn "N") (render-s "q")`},
	{"e", "<% N 7 %>q", `(invoke {:functor (qn "N") :args [7]}) (render-s "q")`, `(qn "N") 7 (render-s "q")`},
	{"e", "<% N %><%= 7 %>", `(qn "N") (render 7)`, `(qn "N") (render 7)`},
}

// C25_calls: a name followed by an argument is a call if, and only if, it is the name of a statement function.
func C25_calls() {
	name := []byte(statementNames[vp.Choose(len(statementNames))])
	i := vp.Choose(len(name) + 1)
	b := vp.ByteOf("abcdefghijklmnopqrstuvwxyz_0")
	if i == len(name) {
		name = append(name, b)
	} else {
		name[i] = b
		vp.Assume(i > 0 || b != '0' && b != '_')
	}
	n := string(name)
	f := statementForms[vp.Choose(len(statementForms))]
	want := f[3]
	for _, s := range statementNames {
		if s == n {
			vp.Cover("statement function")
			want = f[2]
		}
	}
	put := func(s string) string { return strings.ReplaceAll(s, "N", n) }
	src := put(f[1])
	if want == "" {
		rejected(f[0], src)
		return
	}
	if f[0] == "e" {
		expectPN("e", src, "(lambda {:body [(epp "+put(want)+")]})")
	} else {
		expectPN("p", src, "(block "+put(want)+")")
	}
}

const deferredNew = `(call-method {:functor (. (qr "Deferred") (qn "new")) :args [`

// stateValue returns a value of an attribute of the state of a resource, its notation there, and its notation elsewhere.
func stateValue(depth int, c string) (src, deferred, plain string) {
	n := 6
	if depth > 0 {
		n = 14
	}
	v := vp.Choose(n)
	switch v {
	case 0:
		return "$v" + c, deferredNew + `"$v` + c + `"]})`, `(var "v` + c + `")`
	case 1:
		return "$a::v" + c, deferredNew + `"$a::v` + c + `"]})`, `(var "a::v` + c + `")`
	case 2:
		return "'v" + c + "'", `"v` + c + `"`, `"v` + c + `"`
	case 3:
		return "fv" + c + "()", deferredNew + `"fv` + c + `" (array)]})`, `(call {:functor (qn "fv` + c + `") :args []})`
	case 4:
		return "Fv" + c, `(qr "Fv` + c + `")`, `(qr "Fv` + c + `")`
	case 5:
		return "8", "8", "8"
	}
	s, d, p := stateValue(depth-1, c)
	const lambda = ` :block (lambda {:params {:y {}} :body [(var "y")]})})`
	switch v {
	case 6:
		return "[" + s + ", 7]", "(array " + d + " 7)", "(array " + p + " 7)"
	case 7:
		return "{ " + s + " => 7, 8 => " + s + " }", "(hash (=> " + d + " 7) (=> 8 " + d + "))", "(hash (=> " + p + " 7) (=> 8 " + p + "))"
	case 8:
		return "fn(" + s + ", 7)", deferredNew + `"fn" (array ` + d + ` 7)]})`, `(call {:functor (qn "fn") :args [` + p + ` 7]})`
	case 9:
		return "fn(7, " + s + ") |$y| { $y }", deferredNew + `"fn" (array 7 ` + d + `)]` + lambda, `(call {:functor (qn "fn") :args [7 ` + p + `]` + lambda
	case 10:
		return "Fn(" + s + ")", deferredNew + `(qn "new") (array (qr "Fn") ` + d + `)]})`, `(call {:functor (qr "Fn") :args [` + p + `]})`
	case 11:
		return "Fn(" + s + ") |$y| { $y }", deferredNew + `(qn "new") (array (qr "Fn") ` + d + `)]` + lambda, `(call {:functor (qr "Fn") :args [` + p + `]` + lambda
	case 12:
		return "F[" + s + "]", `(access (qr "F") ` + p + `)`, `(access (qr "F") ` + p + `)`
	}
	return "7 + (" + s + ")", "(+ 7 (paren " + p + "))", "(+ 7 (paren " + p + "))"
}

// C25_states: variables and calls in the state of a resource are deferred, within lists, hashes and arguments as well,
// and nothing else is.
func C25_states() {
	c := vp.ByteOf(nameTail)
	s, d, p := stateValue(depthFor()+1, string([]byte{c}))
	if vp.Bool() {
		expectPN("w", "resource a { } { b => "+s+", c => $d }", `(block (step {:name "a" :style "resource" :definition (hash (=> (qn "b") `+d+`) (=> (qn "c") `+deferredNew+`"$d"]})))}))`)
	} else {
		expectPN("w", "$x = ["+s+"]", `(block (= (var "x") (array `+p+`)))`)
	}
}

// C25_braces: the hash that is the argument of a statement function is read as a hash anywhere else.
func C25_braces() {
	c := string([]byte{vp.ByteOf(nameTail)})
	key := []string{"site", "site { }", "function", "function x" + c + " { }", "plan", "application", "application x" + c + " { }", "type", "type X = Y", "type()",
		"type(7)", "type()[7]", "consumes", "produces", "attr", "x" + c, "x" + c + "()", "x" + c + " + 7", "$x" + c, "$x" + c + ".f", "'x" + c + "'", "X" + c, "X[x" + c + "]", "X" + c + " { }",
		"class", "class x { }", "if", "if 7 { }", "default", "true", "undef", "[x" + c + "]", "{ 7 => x" + c + " }", "\"${x" + c + "}\"", "x" + c + " { 'a': }", "@x" + c + " { 'a': }",
		"$x = 7", "7 -> 8", "-7", "!x" + c, "*$x", "x" + c + " 'a'", "notice x" + c, "notice", "resource", "resource x" + c + " { }", "in", "7 in [7]", "private", "step", "node", "define"}[vp.Choose(52)]
	mode := []string{"p", "t", "w", "e"}[vp.Choose(4)]
	rest := []string{" => 7 }", " => 7, 'k' => 8 }", " }", ", 'k' => 8 }", " => 7, => 8 }", "=>7,}"}[vp.Choose(6)]
	pre, post := "", ""
	if mode == "e" {
		pre, post = "<% ", " %>"
	}
	a, err := ParseMode(mode, pre+"notice { "+key+rest+post)
	b, err2 := ParseMode(mode, pre+"notice({ "+key+rest+")"+post)
	if (err == nil) != (err2 == nil) {
		vp.Fail("notice { " + key + rest + " is not accepted as notice({ " + key + rest + ") is")
	}
	if err == nil {
		vp.Cover("accepted")
		vp.Assert(a.ToPN().String() == b.ToPN().String(), a.ToPN().String()+" instead of "+b.ToPN().String())
	}
}
