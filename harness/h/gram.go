package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// gram generates a source from a grammar together with the notation of its
// tree. Each choice that differs from the first alternative costs one of
// the available deviations, so that all sources are generated that
// combine at most so many optional parts and alternatives.
type gram struct {
	left    int
	free    int  // deviations left for the parts of the outermost statement itself
	kind    bool // the kind of the outermost statement does not count as a deviation
	deep    int  // nesting below the outermost statement
	src     []byte
	gaps    []int    // where white space may be inserted
	ns      []string // names of surrounding classes
	defs    []string // notations of definitions in the order in which they end
	mode    string
	inStr   bool // directly after the start of an interpolation
	test    bool // in a condition, which can't be a selector
	more    bool // another statement follows
	follows bool // next statement follows another one without semicolon
	args1   bool // first argument of a statement call
}

func (g *gram) pick(n int) int {
	if g.deep == 0 && g.free > 0 && n > 1 {
		k := vp.Choose(n)
		if k > 0 {
			g.free--
		}
		return k
	}
	if g.left == 0 || n < 2 {
		return 0
	}
	k := vp.Choose(n)
	if k > 0 {
		g.left--
	}
	return k
}

// t appends tokens that may be preceded by white space, and are preceded by
// a space.
func (g *gram) t(tokens ...string) {
	for _, s := range tokens {
		g.src = append(g.src, ' ')
		g.gaps = append(g.gaps, len(g.src))
		g.src = append(g.src, s...)
	}
}

// j appends a token without a space.
func (g *gram) j(s string) {
	g.src = append(g.src, s...)
}

// o appends a token, with or without a space before it.
func (g *gram) o(s string) {
	g.gaps = append(g.gaps, len(g.src))
	g.src = append(g.src, s...)
}

func (g *gram) list(n int, f func() string) string {
	ps := make([]string, 0, n)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.o(",")
		}
		ps = append(ps, f())
	}
	return strings.Join(ps, " ")
}

func (g *gram) entries(n int, hashKey bool) string {
	return g.list(n, func() string {
		k := ""
		switch g.pick(5) {
		case 0:
			g.t("ka")
			k = `(qn "ka")`
		case 1:
			g.t("'kb'")
			k = `"kb"`
		case 2:
			g.t("3")
			k = `3`
		case 3:
			g.t("Kc")
			k = `(qr "Kc")`
		case 4:
			if hashKey {
				g.t("type")
				k = `(qn "type")`
			} else {
				g.t("default")
				k = `(default)`
			}
		}
		g.t("=>")
		return "(=> " + k + " " + g.value() + ")"
	})
}

func (g *gram) str() string {
	g.t(`"`)
	s := `(concat`
	part := func() {
		g.j("${")
		g.inStr = true
		v := g.value()
		g.inStr = false
		g.o("}")
		s += " (str " + v + ")"
	}
	switch g.pick(5) {
	case 0:
		g.j("a")
		s += ` "a"`
		part()
		g.j("b")
		s += ` "b"`
	case 1:
		part()
	case 2:
		part()
		part()
	case 3:
		part()
		g.j("$y")
		s += ` (str (var "y"))`
	case 4:
		g.j(`c$y\t`)
		s += ` "c" (str (var "y")) "\t"`
		part()
	}
	g.j(`"`)
	return s + ")"
}

// operand generates an expression that binds tighter than operators.
func (g *gram) operand() string {
	g.deep++
	defer func() { g.deep-- }()
	in := g.inStr
	g.inStr = false
	k := g.pick(21)
	if g.args1 && (k == 5 || k == 8 || k == 10 || k == 11) {
		k = 0 // different meaning after a name
	}
	args1 := g.args1
	g.args1 = false
	if in && k == 16 {
		k = 0 // a name is a variable
	}
	switch k {
	case 1:
		g.t("7")
		return "7"
	case 2:
		g.t("'st'")
		return `"st"`
	case 3:
		return g.str()
	case 4:
		g.t("[")
		s := ""
		switch g.pick(5) {
		case 0:
			s = g.value()
		case 1:
			g.o("]")
			return "(array)"
		case 2:
			s = g.list(2, g.value)
		case 3:
			s = "(hash " + g.entries(2, true) + ")"
		case 4:
			s = g.value()
			g.o(",")
			s += " (hash " + g.entries(1, true) + ")"
		}
		if g.pick(2) == 1 {
			g.o(",")
		}
		g.o("]")
		return "(array " + s + ")"
	case 5:
		return g.hash()
	case 6:
		switch g.pick(3) {
		case 0:
			g.t("fn")
			return g.args(`call {:functor (qn "fn")`, 0)
		case 1:
			g.t("Fn")
			return g.args(`call {:functor (qr "Fn")`, 0)
		default:
			g.t("nm::fn")
			return g.args(`call {:functor (qn "nm::fn")`, 0)
		}
	case 7:
		g.args1, g.inStr = args1, in
		s := g.operand()
		g.o(".")
		if strings.HasPrefix(s, `(qn`) || s == "7" || s == "1.5" {
			vp.Assume(false)
		}
		m := "me"
		if g.pick(2) == 1 {
			m = "type"
		}
		g.o(m)
		return g.args(`call-method {:functor (. `+s+` (qn "`+m+`"))`, 1)
	case 8:
		g.inStr = in
		s := g.operand()
		g.j("[")
		if s == "nil" || s == "(default)" || s == "true" || s == "false" {
			vp.Assume(false)
		}
		s = "(access " + s + " " + g.list(1+g.pick(2), g.value) + ")"
		g.o("]")
		return s
	case 9:
		if g.pick(2) == 1 {
			g.t("Ta::Tb")
			return `(qr "Ta::Tb")`
		}
		g.t("Ta")
		return `(qr "Ta")`
	case 10:
		g.t("(")
		s := ""
		if g.pick(2) == 1 {
			s = g.assignment()
		} else {
			s = g.value()
		}
		g.o(")")
		return "(paren " + s + ")"
	case 11:
		g.t("/re/")
		return `(regexp "re")`
	case 12:
		g.t("undef")
		return "nil"
	case 13:
		g.t("default")
		return "(default)"
	case 14:
		g.t("true")
		return "true"
	case 15:
		g.t("false")
		return "false"
	case 16:
		g.t("nm")
		return `(qn "nm")`
	case 17:
		g.t("1.5")
		return "1.5"
	case 18:
		g.t("0xA")
		return "(int {:radix 16 :value 10})"
	case 19:
		g.t("$x::y")
		return `(var "x::y")`
	case 20:
		g.t("''")
		return `""`
	}
	g.t("$x")
	return `(var "x")`
}

func (g *gram) hash() string {
	g.t("{")
	n := []int{1, 0, 2}[g.pick(3)]
	if n == 0 {
		g.o("}")
		return "(hash)"
	}
	s := g.entries(n, true)
	if g.pick(2) == 1 {
		g.o(",")
	}
	g.o("}")
	return "(hash " + s + ")"
}

// args generates arguments and lambda of a call. Kind 1: arguments are
// optional.
func (g *gram) args(start string, kind int) string {
	s := "(" + start + " :args ["
	n := 1
	if kind == 1 {
		n = g.pick(4) - 1
	} else {
		n = []int{1, 0, 2}[g.pick(3)]
	}
	if n >= 0 {
		g.j("(")
		s += g.list(n, g.value)
		g.o(")")
	}
	s += "]"
	if g.pick(2) == 1 {
		s += " :block " + g.lambda()
	}
	return s + "})"
}

func (g *gram) lambda() string {
	g.t("|")
	s := "(lambda {"
	if p := g.paramList(); p != "" {
		s += ":params {" + p + "} "
	}
	g.o("|")
	if g.pick(2) == 1 {
		s += ":returns " + g.returns() + " "
	}
	return s + ":body " + g.block() + "})"
}

func (g *gram) returns() string {
	g.t(">>")
	return g.typ()
}

func (g *gram) typ() string {
	g.deep++
	defer func() { g.deep-- }()
	g.t("Ty")
	if g.pick(2) == 1 {
		g.j("[")
		s := `(access (qr "Ty") ` + g.list(1+g.pick(2), g.value) + ")"
		g.o("]")
		return s
	}
	return `(qr "Ty")`
}

// paramList generates zero to two parameters, possibly a trailing comma
func (g *gram) paramList() string {
	return g.paramEntries(false)
}

func (g *gram) paramEntries(array bool) string {
	n := []int{1, 0, 2}[g.pick(3)]
	if n == 0 {
		return ""
	}
	i := 0
	s := g.list(n, func() string {
		i++
		name := "p" + string(rune('0'+i))
		es := []string{}
		splat := false
		if g.pick(2) == 1 {
			es = append(es, ":type "+g.typ())
		}
		if i == n && g.pick(2) == 1 {
			g.t("*")
			g.o("$" + name)
			splat = true
		} else {
			g.t("$" + name)
		}
		if splat {
			es = append(es, ":splat true")
		}
		if g.pick(2) == 1 {
			g.t("=")
			es = append(es, ":value "+g.value())
		}
		if array {
			return "(param {" + strings.Join(append([]string{":name \"" + name + "\""}, es...), " ") + "})"
		}
		return ":" + name + " {" + strings.Join(es, " ") + "}"
	})
	if g.pick(2) == 1 {
		g.o(",")
	}
	return s
}

var gramOps = []string{"+", "-", "*", "/", "%", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "=~", "!~", "in", "and", "or"}

// value generates an expression.
func (g *gram) value() string {
	g.deep++
	defer func() { g.deep-- }()
	in := g.inStr
	if in {
		// an operator, or an access, after a name is a different case
		return g.operand()
	}
	k := g.pick(9)
	if g.test && k == 3 {
		k = 0
	}
	g.test = false
	switch k {
	case 1:
		a := g.operand()
		op := gramOps[g.pick(len(gramOps))]
		g.t(op)
		b := g.operand()
		if op == "-" && (b == "7" || b == "1.5") {
			return "(- " + a + " " + b + ")"
		}
		return "(" + op + " " + a + " " + b + ")"
	case 2:
		op := []string{"!", "-"}[g.pick(2)]
		if g.args1 {
			op = "!"
		}
		g.args1 = false
		g.t(op)
		if op == "-" {
			g.t("$x")
			return `(- (var "x"))`
		}
		return "(! " + g.operand() + ")"
	case 3:
		s := g.operand()
		g.t("?")
		if g.pick(2) == 0 {
			g.t("{")
			s = "(? " + s + " [" + g.entries(1+g.pick(2), false) + "])"
			if g.pick(2) == 1 {
				g.o(",")
			}
			g.o("}")
			return s
		}
		return "(? " + s + " [" + g.entries(1, false) + "])"
	case 4:
		g.args1 = false
		return g.ifExpr()
	case 5:
		g.args1 = false
		return g.unless()
	case 6:
		g.args1 = false
		return g.caseExpr()
	case 7:
		if g.args1 {
			return g.operand() // it would be a multiplication
		}
		g.t("*")
		return "(unfold " + g.operand() + ")"
	case 8:
		if g.args1 {
			return g.operand() // it would be a resource
		}
		return g.hash()
	}
	return g.operand()
}

func (g *gram) assignment() string {
	g.t("$a")
	op := []string{"=", "+=", "-="}[g.pick(3)]
	g.t(op)
	if g.pick(2) == 1 {
		g.t("$b")
		g.t("=")
		return "(" + op + ` (var "a") (= (var "b") ` + g.value() + "))"
	}
	return "(" + op + ` (var "a") ` + g.value() + ")"
}

func (g *gram) cond() string {
	g.test = true
	return g.value()
}

func (g *gram) ifExpr() string {
	g.t("if")
	s := "(if {:test " + g.cond()
	s += " :then " + g.block()
	switch g.pick(3) {
	case 1:
		g.t("else")
		s += " :else " + g.block()
	case 2:
		g.t("elsif")
		s += " :else [(if {:test " + g.cond()
		s += " :then " + g.block()
		if g.pick(2) == 1 {
			g.t("else")
			s += " :else " + g.block()
		}
		s += "})]"
	}
	return s + "})"
}

func (g *gram) unless() string {
	g.t("unless")
	s := "(unless {:test " + g.cond()
	s += " :then " + g.block()
	if g.pick(2) == 1 {
		g.t("else")
		s += " :else " + g.block()
	}
	return s + "})"
}

func (g *gram) caseExpr() string {
	g.t("case")
	s := "(case " + g.value() + " ["
	g.t("{")
	n := 1 + g.pick(2)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " "
		}
		s += "{:when [" + g.list(1+g.pick(2), g.operand) + "]"
		if g.pick(2) == 1 {
			g.o(",")
		}
		g.o(":")
		s += " :then " + g.block() + "}"
	}
	g.t("}")
	return s + "])"
}

// block generates a block in braces.
func (g *gram) block() string {
	g.t("{")
	g.deep++
	s := "[" + g.statements() + "]"
	g.deep--
	g.t("}")
	return s
}

func (g *gram) statements() string {
	s := ""
	switch g.pick(4) {
	case 0:
		s = g.statement()
	case 1:
	case 2:
		g.more = true
		s = g.statement() + " "
		g.more = false
		g.src = append(g.src, '\n')
		g.follows = true
		s += g.statement()
		g.follows = false
	case 3:
		s = g.statement() + " "
		if s == `(render-s "tx") ` {
			g.follows = true
		} else {
			g.t(";")
		}
		s += g.statement()
		g.follows = false
	}
	return s
}

// isCall turns a call into a statement
func isCall(s string) string {
	if strings.HasPrefix(s, "(call {") {
		return "(invoke {" + s[7:]
	}
	return s
}

func (g *gram) def(s string) string {
	g.defs = append(g.defs, s)
	return s
}

// full is the name qualified with the names around it.
func (g *gram) full(name string) string {
	return strings.Join(append(append([]string(nil), g.ns...), name), "::")
}

func (g *gram) params() string {
	if g.pick(2) == 0 {
		return ""
	}
	g.t("(")
	p := g.paramList()
	g.o(")")
	if p != "" {
		return ":params {" + p + "} "
	}
	return ""
}

// ops generates operations on attributes
func (g *gram) ops() string {
	n := []int{1, 0, 2}[g.pick(3)]
	if n == 0 {
		return ""
	}
	i := 0
	s := g.list(n, func() string {
		i++
		switch g.pick(4) {
		case 1:
			g.t("ab", "+>")
			return `(+> "ab" ` + g.value() + ")"
		case 2:
			g.t("*", "=>")
			return `(splat-hash ` + g.value() + ")"
		case 3:
			g.t("if", "=>")
			return `(=> "if" ` + g.value() + ")"
		}
		g.t("ac", "=>")
		return `(=> "ac" ` + g.value() + ")"
	})
	if g.pick(2) == 1 {
		g.o(",")
	}
	return s
}

var forms = []string{"", "@", "@@"}
var formsPN = []string{"", ` :form "virtual"`, ` :form "exported"`}

func (g *gram) resource() string {
	f := g.pick(3)
	g.t(forms[f])
	name := []string{"rs", "rs::tt", "class"}[g.pick(3)]
	g.o(name)
	g.t("{")
	s := `(resource {:type (qn "` + name + `") :bodies [`
	n := 1 + g.pick(2)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.o(";")
			s += " "
		}
		s += "{:title "
		switch g.pick(4) {
		case 0:
			g.t("'ti'")
			s += `"ti"`
		case 1:
			g.t("default")
			s += "(default)"
		default:
			s += g.operand()
		}
		g.o(":")
		s += " :ops [" + g.ops() + "]}"
	}
	if g.pick(2) == 1 {
		g.o(";")
	}
	g.t("}")
	return s + "]" + formsPN[f] + "})"
}

func (g *gram) node() string {
	g.t("node")
	m := func() string {
		switch g.pick(5) {
		case 1:
			g.t("'nd'")
			return `"nd"`
		case 2:
			g.t("/nd/")
			return `(regexp "nd")`
		case 3:
			g.t("default")
			return `(default)`
		case 4:
			g.t("nd.ex.7")
			return `"nd.ex.7"`
		}
		g.t("nd")
		return `"nd"`
	}
	s := "(node {:matches [" + g.list(1+g.pick(2), m) + "]"
	if g.pick(2) == 1 {
		g.t("inherits")
		s += " :parent " + m()
	}
	return g.def(s + " :body " + g.block() + "})")
}

// statement generates a statement.
func (g *gram) statement() string {
	f := g.follows
	g.follows = false
	var k int
	if g.kind {
		g.kind = false
		k = vp.Choose(27)
	} else {
		k = g.pick(27)
	}
	if k == 2 || k == 5 {
		g.args1 = f
	}
	switch k {
	case 1:
		return g.assignment()
	case 2:
		return isCall(g.value())
	case 3:
		fn := []string{"notice", "include", "fail"}[g.pick(3)]
		g.t(fn)
		g.args1 = true
		return `(invoke {:functor (qn "` + fn + `") :args [` + g.list(1+g.pick(2), g.value) + "]})"
	case 4:
		g.t("fn")
		return isCall(g.args(`call {:functor (qn "fn")`, 0))
	case 5:
		s := g.operand()
		g.o(".")
		if strings.HasPrefix(s, `(qn`) || s == "7" || s == "1.5" {
			vp.Assume(false)
		}
		g.o("me")
		return g.args(`call-method {:functor (. `+s+` (qn "me"))`, 1)
	case 6:
		return g.ifExpr()
	case 7:
		return g.unless()
	case 8:
		return g.caseExpr()
	case 9:
		g.t("class")
		name := []string{"ca", "ca::cb"}[g.pick(2)]
		g.t(name)
		s := `(class {:name "` + g.full(name) + `" `
		parent := ""
		p := g.params()
		switch g.pick(3) {
		case 1:
			g.t("inherits", "pa::pb")
			parent = `:parent "pa::pb" `
		case 2:
			g.t("inherits", "default")
			parent = `:parent "default" `
		}
		g.ns = append(g.ns, name)
		s += parent + p + ":body " + g.block() + "})"
		g.ns = g.ns[:len(g.ns)-1]
		return g.def(s)
	case 10:
		g.t("define")
		name := []string{"da", "da::db"}[g.pick(2)]
		g.t(name)
		s := `(define {:name "` + name + `" ` + g.params()
		return g.def(s + ":body " + g.block() + "})")
	case 11, 12:
		return g.function("function", "function")
	case 13:
		return g.node()
	case 14:
		g.t("application")
		g.t("ap")
		s := `(application {:name "ap" ` + g.params()
		return g.def(s + ":body " + g.block() + "})")
	case 15:
		g.t("site", "{")
		s := g.statements()
		g.t("}")
		if s != "" {
			s = " " + s
		}
		return g.def("(site" + s + ")")
	case 16:
		g.t("type", "Al", "=")
		return g.def(`(type-alias "Al" ` + g.typ() + ")")
	case 17:
		g.t("type", "Td")
		parent := ""
		if g.pick(2) == 1 {
			g.t("inherits", "Tp")
			parent = "Tp"
		}
		g.t("{")
		s := g.statements()
		g.t("}")
		if s != "" {
			s = " " + s
		}
		return g.def(`(type-definition "Td" "` + parent + `" (block` + s + "))")
	case 18:
		g.t("Cm")
		k := []string{"produces", "consumes"}[g.pick(2)]
		g.t(k, "Cc", "{")
		s := g.ops()
		g.t("}")
		if s != "" {
			s = " " + s
		}
		return g.def("(" + k + ` (qr "Cm") ["` + g.full("Cc") + `"` + s + "])")
	case 19:
		return g.resource()
	case 20:
		f := g.pick(3)
		g.t(forms[f])
		g.o("Rd")
		g.t("{")
		s := g.ops()
		g.t("}")
		return `(resource-defaults {:type (qr "Rd") :ops [` + s + "]" + formsPN[f] + "})"
	case 21:
		f := g.pick(3)
		g.t(forms[f])
		g.o("Ro")
		g.j("[")
		s := `(resource-override {:resources (access (qr "Ro") ` + g.list(1+g.pick(2), g.value) + ")"
		g.o("]")
		g.t("{")
		s += " :ops [" + g.ops() + "]" + formsPN[f] + "})"
		g.t("}")
		return s
	case 22:
		g.t("Co")
		q := g.pick(2)
		g.t([]string{"<|", "<<|"}[q])
		s := `(collect {:type (qr "Co") :query (` + []string{"virtual", "exported"}[q] + "-query"
		switch g.pick(4) {
		case 0:
			g.t("qa", "==")
			s += ` (== (qn "qa") ` + g.operand() + ")"
		case 1:
		case 2:
			g.t("qa", "!=")
			s += ` (and (!= (qn "qa") ` + g.operand() + ")"
			g.t("and", "qb", "==")
			s += ` (== (qn "qb") ` + g.operand() + "))"
		case 3:
			g.t("(", "qa", "==")
			s += ` (paren (or (== (qn "qa") ` + g.operand() + ")"
			g.t("or", "qb", "==")
			s += ` (== (qn "qb") ` + g.operand() + ")))"
			g.t(")")
		}
		g.t([]string{"|>", "|>>"}[q])
		s += ")"
		if g.pick(2) == 1 {
			g.t("{")
			if o := g.ops(); o != "" {
				s += " :ops [" + o + "]"
			}
			g.t("}")
		}
		return s + "})"
	case 23:
		a := g.resource()
		op := []string{"->", "~>", "<-", "<~"}[g.pick(4)]
		g.t(op)
		return "(" + op + " " + a + " " + g.resource() + ")"
	case 24:
		if g.mode == "t" {
			return g.function("plan", "plan")
		}
		return g.resource()
	case 26:
		if g.mode == "w" {
			return g.def(g.step([]string{"workflow", "action", "resource", "stateHandler"}[g.pick(4)]))
		}
		if g.mode == "e" {
			if g.pick(2) == 1 {
				g.t("%>tx<%=")
				s := `(render-s "tx") (render ` + g.value() + ")"
				g.t("-%>\nty<%-")
				return s + ` (render-s "ty")`
			}
			g.t("%>tx<%")
			return `(render-s "tx")`
		}
	case 25:
		g.t("type", "Tm")
		g.j("[")
		s := `(type-mapping (access (qr "Tm") ` + g.value() + ")"
		g.o("]")
		g.t("=")
		return g.def(s + " " + g.typ() + ")")
	}
	g.t("$z")
	return `(var "z")`
}

func (g *gram) function(kw, pn string) string {
	g.t(kw)
	name := []string{"fa", "fa::fb"}[g.pick(2)]
	g.t(name)
	s := "(" + pn + ` {:name "` + name + `" ` + g.params()
	r := ""
	if g.pick(2) == 1 {
		r = " :returns " + g.returns()
	}
	if kw == "plan" {
		g.ns = append(g.ns, name)
		defer func() { g.ns = g.ns[:len(g.ns)-1] }()
	}
	return g.def(s + ":body " + g.block() + r + "})")
}

// source generates a program.
func (g *gram) source() (src, pn string) {
	if g.mode == "e" {
		pn = "(lambda {"
		if g.pick(2) == 1 {
			g.j("<%|")
			if p := g.paramList(); p != "" {
				pn += ":params {" + p + "} "
			}
			g.t("|%>")
		}
		pn += ":body [(epp"
		if g.pick(2) == 1 {
			g.j("<%")
			s := g.statements()
			if s != "" {
				s = " " + s
			}
			g.t("%>")
			if s == "" && !strings.Contains(pn, ":params") && g.src[1] == '%' && g.src[2] != '|' {
				s = ` (render-s "")`
			}
			return string(g.src), pn + s + ")]})"
		}
		g.j("tx<%=")
		pn += ` (render-s "tx") (render ` + g.value() + ")"
		g.t("%>ty<%")
		pn += ` (render-s "ty")` + g.eppEnd() + ")]})"
		return string(g.src), pn
	}
	pn = g.statements()
	if pn == "" {
		return string(g.src), "(block)"
	}
	return string(g.src), "(block " + pn + ")"
}

// step generates a step of a workflow.
func (g *gram) step(style string) string {
	needBody := g.more
	g.more = false
	g.t(style)
	name := []string{"sa", "sb"}[g.pick(2)]
	g.t(name, "{")
	full := g.full(name)
	s := `(step {:name "` + full + `" :style "` + style + `"`
	n := []int{0, 1, 2}[g.pick(3)]
	props := g.list(n, func() string {
		switch g.pick(4) {
		case 1:
			g.t("returns", "=>", "(")
			r := g.list([]int{1, 0, 2}[g.pick(3)], g.returned)
			if r != "" {
				r = " " + r
			}
			if r != "" && g.pick(2) == 1 {
				g.o(",")
			}
			g.t(")")
			return `(=> (qn "returns") (array` + r + "))"
		case 2:
			g.t("when", "=>")
			return `(=> (qn "when") ` + g.value() + ")"
		case 3:
			g.t("type", "=>")
			return `(=> (qn "type") ` + g.typ() + ")"
		}
		g.t("parameters", "=>", "(")
		p := g.paramEntries(true)
		g.t(")")
		if p != "" {
			p = " " + p
		}
		return `(=> (qn "parameters") (array` + p + "))"
	})
	g.t("}")
	if k := g.pick(4); k > 0 {
		if style == "workflow" {
			g.ns = append(g.ns, name)
		}
		v := name
		needBody = true
		if g.pick(2) == 1 {
			v = "iv"
			g.t("$iv", "=")
		}
		f := []string{"", "times", "range", "each"}[k]
		g.t(f)
		g.o("(")
		p := g.paramEntries(true)
		if p != "" {
			p = " " + p
		}
		g.o(")")
		g.t("|")
		vs := g.paramEntries(true)
		if vs != "" {
			vs = " " + vs
		}
		g.o("|")
		if props != "" {
			props += " "
		}
		props += `(=> (qn "iteration") (hash (=> (qn "name") (qn "` + v + `")) (=> (qn "function") (qn "` + f + `")) (=> (qn "params") (array` + p + `)) (=> (qn "vars") (array` + vs + `))))`
		if style == "workflow" {
			g.ns = g.ns[:len(g.ns)-1]
		}
	}
	if props != "" {
		s += " :properties (hash " + props + ")"
	}
	switch style {
	case "workflow":
		g.ns = append(g.ns, name)
		k := g.pick(7)
		if k == 1 && !needBody {
			break
		}
		g.t("{")
		b := ""
		switch k {
		case 0:
			b = " " + g.step("resource")
		case 3:
			b = " " + g.step("action")
		case 4:
			b = " " + g.step("workflow")
		case 5:
			b = " " + g.step("stateHandler")
		case 6:
			b = " " + g.step("resource")
			b += " " + g.step("action")
		}
		g.t("}")
		if b != "" {
			s += " :definition (block" + b + ")"
		}
	case "resource":
		if g.pick(2) == 1 && !needBody {
			break
		}
		g.t("{")
		if n := []int{1, 0, 2}[g.pick(3)]; n > 0 {
			s += " :definition (hash " + g.list(n, func() string {
				g.t("at", "=>")
				return `(=> (qn "at") ` + g.state() + ")"
			}) + ")"
			if g.pick(2) == 1 {
				g.o(",")
			}
		}
		g.t("}")
	default:
		g.t("{")
		b := g.statements()
		if b != "" {
			b = " " + b
		}
		g.t("}")
		s += " :definition (block" + b + ")"
	}
	if style == "workflow" {
		g.ns = g.ns[:len(g.ns)-1]
	}
	return s + "})"
}

// returned generates a returned value of a step.
func (g *gram) returned() string {
	s := ""
	if g.pick(2) == 1 {
		s = " :type " + g.typ()
	}
	g.t("$rv")
	switch g.pick(4) {
	case 1:
		g.t("=", "al")
		s += ` :value "al"`
	case 2:
		g.t("=", "(", "al")
		g.o(",")
		g.t("type", ")")
		s += ` :value (array "al" "type")`
	case 3:
		g.t("=", "(", "al", ")")
		s += ` :value (array "al")`
	}
	return `(param {:name "rv"` + s + "})"
}

const deferred = `(call-method {:functor (. (qr "Deferred") (qn "new")) :args [`

// state generates a value in the state of a resource.
func (g *gram) state() string {
	switch g.pick(10) {
	case 1:
		g.t("7")
		return "7"
	case 2:
		g.t("[")
		s := g.list(1+g.pick(2), g.state)
		g.o("]")
		return "(array " + s + ")"
	case 3:
		g.t("{", "kx", "=>")
		s := g.state()
		g.o("}")
		return `(hash (=> (qn "kx") ` + s + "))"
	case 4:
		g.t("fn")
		g.j("(")
		s := g.list(1+g.pick(2), g.state)
		g.o(")")
		b := ""
		if g.pick(2) == 1 {
			b = " :block " + g.lambda()
		}
		return deferred + `"fn" (array ` + s + ")]" + b + "})"
	case 5:
		g.t("Fn")
		g.j("(")
		s := g.list(1+g.pick(2), g.state)
		g.o(")")
		return deferred + `(qn "new") (array (qr "Fn") ` + s + ")]})"
	case 6:
		g.t("$3")
		return deferred + `"$3"]})`
	case 7:
		g.t("{", "$kv", "=>")
		s := g.state()
		g.o("}")
		return "(hash (=> " + deferred + `"$kv"]}) ` + s + "))"
	case 8:
		g.t("'st'")
		return `"st"`
	case 9:
		g.t("Ta::Tb")
		return `(qr "Ta::Tb")`
	}
	g.t("$sv")
	return deferred + `"$sv"]})`
}

func (g *gram) eppEnd() string {
	g.follows = true
	s := g.statements()
	if s != "" {
		s = " " + s
	}
	g.t("%>")
	return s
}

// someGram returns a generator with the number of deviations for the tier
func someGram(quick, thorough int) *gram {
	g := &gram{mode: []string{"p", "t", "w", "e"}[vp.Choose(4)], left: quick}
	if vp.Thorough() {
		g.left = thorough
	}
	return g
}

// tree parses a generated source.
func (g *gram) tree() (parser.Expression, string, string) {
	src, pn := g.source()
	e, err := ParseMode(g.mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	return e, src, pn
}
