package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// word finds the end of the word at the start of the text and its kind: n for
// a name, t for a type, s for a string. The end is negative when the word is
// malformed, and it is 0 when there is no word.
func word(s string) (kind byte, end int) {
	i := 0
	if at(s, 0) == ':' && at(s, 1) == ':' {
		i = 2
		if !letter(at(s, 2)) {
			return 0, -1
		}
	}
	kind = 'n'
	if upper(at(s, i)) {
		kind = 't'
	} else if !lower(at(s, i)) {
		return 0, 0
	}
	up := kind == 't'
	for {
		for wordCh(at(s, i)) {
			i++
		}
		if at(s, i) == '-' && !up {
			k := i
			for at(s, k) == '-' {
				k++
			}
			if wordCh(at(s, k)) {
				kind = 's'
				i = k
				continue
			}
		}
		if at(s, i) != ':' || at(s, i+1) != ':' {
			return kind, i
		}
		c := at(s, i+2)
		if up && !upper(c) || !up && !lower(c) {
			return 0, -1
		}
		i += 3
	}
}

// elementWords are the words that are no plain names when they are elements
// of a list
var elementWords = strings.Fields("and attr case class default define false else elsif if in inherits node or private true undef unless")

func member(w string, l []string) bool {
	for _, x := range l {
		if x == w {
			return true
		}
	}
	return false
}

// C21_word: arbitrary words.
func C21_word() {
	n := lenFor(6, 8)
	if n == 0 {
		return
	}
	w := vp.BytesOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:-", n)
	c := w[0]
	vp.Assume(!digit(c) && c != '-' && (c != ':' || at(w, 1) == ':'))
	src := "[" + w + ", 7]"
	kind, end := word(w + ",")
	if end <= 0 {
		rejected("p", src)
		return
	}
	if end < n {
		// something is left over
		if w[end] == ':' || kind == 'n' && member(w[:end], elementWords) {
			return
		}
		e, err := ParseMode("p", src)
		if err == nil {
			e = e.(*parser.Program).Body().(*parser.BlockExpression).Statements()[0].(*parser.LiteralList).Elements()[0]
			b, ok := e.(*parser.ArithmeticExpression)
			vp.Assert(ok && b.Operator() == "-", "no subtraction in "+src)
			l := b.Lhs()
			for {
				b, ok := l.(*parser.ArithmeticExpression)
				if !ok {
					break
				}
				l = b.Lhs()
			}
			isWord(l, kind, w[:end], src)
		}
		return
	}
	if kind == 'n' && member(w, elementWords) {
		return
	}
	isWord(inList("p", src), kind, w, src)
}

func isWord(e parser.Expression, kind byte, w, src string) {
	switch e := e.(type) {
	case *parser.QualifiedName:
		vp.Assert(kind == 'n' && e.Name() == w, "wrong name "+e.Name()+" in "+src)
	case *parser.QualifiedReference:
		vp.Assert(kind == 't' && e.Name() == w && e.DowncasedName() == strings.ToLower(w), "wrong type "+e.Name()+" in "+src)
	case *parser.LiteralString:
		vp.Assert(kind == 's' && e.StringValue() == w, "wrong string "+e.StringValue()+" in "+src)
	default:
		vp.Fail("not a word in " + src)
	}
}

// C21_end: the character that ends a word.
func C21_end() {
	w := []string{"ab", "a::b", "A", "A::B", "::a", "::A", "a-b", "if", "true", "$a", "$a::_b"}[vp.Choose(11)]
	c := vp.Byte()
	vp.Assume(c < 0x80)
	if wordCh(c) || c == ':' || c == '-' {
		return
	}
	e, err := ParseMode("p", "["+w+string([]byte{c})+" 7]")
	switch c {
	case ',':
		vp.Assert((err == nil) == (w != "if"), "wrong decision about "+w+",")
		if err == nil && w != "true" && w[0] != '$' {
			k, _ := word(w)
			isWord(inList("p", "["+w+", 7]"), k, w, w)
		}
	case 0, '"', '\'', '`', '\\', '$', '~', ';', '{', '}', '|', '^', '&':
		vp.Assert(err != nil, "accepted: "+w+string([]byte{c}))
	default:
		if err == nil {
			l := e.(*parser.Program).Body().(*parser.BlockExpression).Statements()[0].(*parser.LiteralList).Elements()
			s := l[0].ToPN().String()
			vp.Assert(strings.Contains(s, w) || strings.Contains(s, w[1:]), "word is lost: "+w+string([]byte{c}))
		}
	}
}

// C21_variable: arbitrary variables.
func C21_variable() {
	n := lenFor(6, 8)
	w := vp.BytesOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:", n)
	if n == 0 || at(w, 0) == '_' || at(w, 0) == ':' && at(w, 1) == ':' && (n == 2 || w[2] == '_') {
		return // a dollar sign alone, also with the colons, is a token
	}
	src := "[$" + w + ", 7]"
	end := varName(w, 0)
	if end < 0 {
		rejected("p", src)
		return
	}
	if end < n {
		return
	}
	e, ok := inList("p", src).(*parser.VariableExpression)
	if !ok {
		vp.Fail("no variable in " + src)
	}
	if digit(w[0]) {
		v := 0
		for i := 0; i < n; i++ {
			v = v*10 + int(w[i]-'0')
		}
		i, ok := e.Index()
		vp.Assert(ok && i == int64(v), "wrong index in "+src)
		return
	}
	name, ok := e.Name()
	vp.Assert(ok && name == w, "wrong name in "+src)
}

var allWords = strings.Fields("and application attr case class consumes default define elsif else false function if in inherits node or plan private produces site true type undef unless step workflow action resource statehandler require include notice default0 truefalse")

var nameForms = []struct{ src, pn string }{
	{"[^, 7]", `(array (qn "^") 7)`},
	{"f(^)", `(invoke {:functor (qn "f") :args [(qn "^")]})`},
	{"f(7, ^)", `(invoke {:functor (qn "f") :args [7 (qn "^")]})`},
	{"{ ^ => 7 }", `(hash (=> (qn "^") 7))`},
	{"{ a => ^ }", `(hash (=> (qn "a") (qn "^")))`},
	{"$x = ^", `(= (var "x") (qn "^"))`},
	{"$x.^", `(call-method {:functor (. (var "x") (qn "^")) :args []})`},
	{"$x.^(7)", `(call-method {:functor (. (var "x") (qn "^")) :args [7]})`},
	{"^(7)", `(invoke {:functor (qn "^") :args [7]})`},
	{"$x == ^", `(== (var "x") (qn "^"))`},
	{"^ == 7", `(== (qn "^") 7)`},
	{"a { ^: }", `(resource {:type (qn "a") :bodies [{:title (qn "^") :ops []}]})`},
	{"^ { b: }", `(resource {:type (qn "^") :bodies [{:title (qn "b") :ops []}]})`},
	{"a { b: ^ => 7 }", `(resource {:type (qn "a") :bodies [{:title (qn "b") :ops [(=> "^" 7)]}]})`},
	{"a { b: ^ => 7, c +> 7 }", `(resource {:type (qn "a") :bodies [{:title (qn "b") :ops [(=> "^" 7) (+> "c" 7)]}]})`},
	{"A { ^ => 7 }", `(resource-defaults {:type (qr "A") :ops [(=> "^" 7)]})`},
	{"A['b'] { ^ +> 7, ^ => 7 }", `(resource-override {:resources (access (qr "A") "b") :ops [(+> "^" 7) (=> "^" 7)]})`},
	{"A { b => 7, ^=>7 }", `(resource-defaults {:type (qr "A") :ops [(=> "b" 7) (=> "^" 7)]})`},
	{"A <| |> { ^ => 7 }", `(collect {:type (qr "A") :query (virtual-query) :ops [(=> "^" 7)]})`},
	{"$^", `(var "^")`},
	{"f($^)", `(invoke {:functor (qn "f") :args [(var "^")]})`},
	{"\"${^}\"", `(concat (str (var "^")))`},
	{"\"$^\"", `(concat (str (var "^")))`},
	{"class ^ { }", `(class {:name "^" :body []})`},
	{"define ^ { }", `(define {:name "^" :body []})`},
	{"function ^ { }", `(function {:name "^" :body []})`},
	{"class x($^) { }", `(class {:name "x" :params {:^ {}} :body []})`},
	{"class x inherits ^ { }", `(class {:name "x" :parent "^" :body []})`},
	{"node ^ { }", `(node {:matches ["^"] :body []})`},
	{"node a.^ { }", `(node {:matches ["a.^"] :body []})`},
	{"if ^ { 7 }", `(if {:test (qn "^") :then [7]})`},
	{"case ^ { ^: { 7 } }", `(case (qn "^") [{:when [(qn "^")] :then [7]}])`},
	{"$x ? { ^ => ^ }", `(? (var "x") [(=> (qn "^") (qn "^"))])`},
	{"A[^]", `(access (qr "A") (qn "^"))`},
	{"A <| ^ == 7 |>", `(collect {:type (qr "A") :query (virtual-query (== (qn "^") 7))})`},
	{"f() |$^| { $^ }", `(invoke {:functor (qn "f") :args [] :block (lambda {:params {:^ {}} :body [(var "^")]})})`},
	{"-^", `(- (qn "^"))`},
	{"!^", `(! (qn "^"))`},
	{"^\n7", `(qn "^")`},
}

// C21_names: words that start or end like a reserved one.
func C21_names() {
	w := allWords[vp.Choose(len(allWords))]
	c := vp.BytesOf(nameTail, 1)
	switch vp.Choose(4) {
	case 0:
		w = w + c
		// elsif, default0 and the like are in the table
		vp.Assume(!member(w, allWords))
	case 1:
		if !lower(c[0]) {
			return
		}
		w = c + w
		vp.Assume(!member(w, allWords))
	case 2:
		w = "z" + c + "::" + w
	case 3:
		w = w + "::z" + c
	}
	nameIn(w, []string{"p", "e", "t", "w", "b"}[vp.Choose(5)], vp.Choose(len(nameForms)))
}

// nameIn checks that the word is a name in a place
func nameIn(w, mode string, place int) {
	f := nameForms[place]
	src := strings.Replace(f.src, "^", w, -1)
	if strings.Contains(f.src, "($^)") && strings.HasPrefix(f.src, "class") || strings.Contains(f.src, "|$^|") {
		if strings.Contains(w, "::") {
			return // qualified parameters are not keys of the notation
		}
	}
	want := strings.Replace(f.pn, "^", w, -1)
	if f.src == "^\n7" {
		want += " 7"
	}
	if mode == "e" {
		src = "<% " + src + " %>"
		want = "(block " + want + ")"
		e := mustParse(mode, src)
		got := e.(*parser.Program).Body().ToPN().String()
		vp.Assert(strings.Contains(got, want[7:len(want)-1]), "wrong name in "+src+": "+got)
		return
	}
	expectPN(mode, src, "(block "+want+")")
}

// C21_ordinary: arbitrary names, in every place.
func C21_ordinary() {
	n := lenFor(1, 2)
	w := "q" + vp.BytesOf(nameTail+"ABCDEFGHIJKLMNOPQRSTUVWXYZ", n) + []string{"", "::b", "0"}[vp.Choose(3)]
	nameIn(w, []string{"p", "t", "w"}[vp.Choose(3)], vp.Choose(len(nameForms)))
}

// C21_modes: words that are reserved in one mode only.
func C21_modes() {
	k := vp.Choose(len(nameForms))
	if vp.Bool() {
		nameIn("plan", []string{"p", "e", "w", "b"}[vp.Choose(4)], k)
		return
	}
	w := []string{"step", "workflow", "action", "resource", "statehandler", "each", "times", "range", "parameters", "returns"}[vp.Choose(10)]
	nameIn(w, []string{"p", "e", "w", "t", "b"}[vp.Choose(5)], k)
}

// C21_attributes: reserved words are names of attributes and variables.
func C21_attributes() {
	w := allWords[vp.Choose(len(allWords))]
	mode := []string{"p", "t", "w", "b"}[vp.Choose(4)]
	k := vp.Choose(len(nameForms))
	switch nameForms[k].src {
	case "a { b: ^ => 7 }", "a { b: ^ => 7, c +> 7 }", "A { ^ => 7 }", "A['b'] { ^ +> 7, ^ => 7 }", "A { b => 7, ^=>7 }", "A <| |> { ^ => 7 }":
		if w == "true" || w == "false" {
			rejected(mode, strings.Replace(nameForms[k].src, "^", w, 1))
			return
		}
	case "$^", "f($^)", "\"$^\"", "class x($^) { }", "f() |$^| { $^ }":
	case "[^, 7]", "f(^)", "f(7, ^)", "{ ^ => 7 }", "{ a => ^ }":
		if !member(w, []string{"type", "function", "application", "site", "consumes", "produces", "plan"}) {
			return
		}
	default:
		return
	}
	nameIn(w, mode, k)
}

// C21_reserved: reserved words are not names.
func C21_reserved() {
	w := strings.Fields("and case class define elsif else if in inherits node or unless application attr consumes default false function private produces site true type undef plan")[vp.Choose(25)]
	mode := "p"
	if w == "plan" {
		mode = "t"
	}
	switch vp.Choose(6) {
	case 0:
		if member(w, elementWords[:0]) || !member(w, []string{"attr", "default", "false", "private", "true", "undef", "application", "consumes", "function", "produces", "site", "type", "plan"}) {
			rejected(mode, "["+w+", 7]")
			rejected(mode, "f(7, "+w+")")
			return
		}
		if member(w, []string{"attr", "private"}) {
			expectPN(mode, "["+w+", 7]", `(block (array (reserved "`+w+`") 7))`)
		}
		if w == "true" || w == "false" {
			expectPN(mode, "["+w+", 7]", `(block (array `+w+` 7))`)
		}
		if w == "undef" {
			expectPN(mode, "["+w+", 7]", `(block (array nil 7))`)
		}
		if w == "default" {
			expectPN(mode, "["+w+", 7]", `(block (array (default) 7))`)
		}
	case 1:
		rejected(mode, "class "+w+" { }")
	case 2:
		rejected(mode, "define "+w+" { }")
	case 3:
		rejected(mode, "function "+w+" { }")
	case 4:
		if w != "default" {
			rejected(mode, "class x inherits "+w+" { }")
		}
	case 5:
		rejected(mode, "application "+w+" { }")
	}
}

// C21_parameter: names of parameters and their types.
func C21_parameter() {
	n := lenFor(2, 3)
	w := "q" + vp.BytesOf(nameTail, n)
	t := "Q" + vp.BytesOf(nameTail+"ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)
	expectPN("p", "class x("+t+" $"+w+") { }", `(block (class {:name "x" :params {:`+w+` {:type (qr "`+t+`")}} :body []}))`)
	expectPN("p", "function x(::"+t+"::A $"+w+" = $"+w+") >> "+t+" { }", `(block (function {:name "x" :params {:`+w+` {:type (qr "::`+t+`::A") :value (var "`+w+`")}} :body [] :returns (qr "`+t+`")}))`)
	expectPN("p", "type "+t+" = A::"+t, `(block (type-alias "`+t+`" (qr "A::`+t+`")))`)
}

// C21_segments: qualified variables and names of several segments.
func C21_segments() {
	w := []string{"", "::"}[vp.Choose(2)]
	n := 1 + lenFor(2, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			w += "::"
		}
		w += []string{"a", "_b", "aB", "B", "a9_", "9", "A_b", "__", "a-b", ""}[vp.Choose(10)]
	}
	pre, post := "$x = ", ""
	switch vp.Choose(4) {
	case 1:
		pre = "[$y::z, "
		post = ", 7]"
	case 2:
		pre = "f(a::b, "
		post = ")"
	case 3:
		pre = "{ A::B => "
		post = " }"
	}
	if strings.Contains(w, "-") {
		return
	}
	dollar := vp.Bool()
	if dollar && (w == "" || w[0] == '_' || strings.HasPrefix(w, "::_") || strings.HasPrefix(w, "::::") || w == "::") {
		return // a dollar sign alone, also with the colons, is a token
	}
	if w == "" || w[0] == ':' && pre[0] == '{' {
		return
	}
	if !dollar {
		kind, end := word(w)
		if kind == 'n' && end == len(w) || kind == 't' && end == len(w) {
			e := mustParse("p", pre+w+post)
			vp.Assert(strings.Contains(e.ToPN().String(), "(q"+map[byte]string{'n': "n", 't': "r"}[kind]+` "`+w+`")`), "name "+w+" is lost")
		} else if end < 0 {
			rejected("p", pre+w+post)
		}
		return
	}
	end := varName(w, 0)
	if end < 0 {
		rejected("p", pre+"$"+w+post)
	} else if end == len(w) {
		e := mustParse("p", pre+"$"+w+post)
		v := w
		if digit(w[0]) {
			vp.Assert(strings.Contains(e.ToPN().String(), `(var `+w+`)`), "variable "+w+" is lost")
			return
		}
		vp.Assert(strings.Contains(e.ToPN().String(), `(var "`+v+`")`), "variable "+w+" is lost")
	}
}
