package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// lists generates sources in which the elements of lists vary.
type lists struct {
	cap int // maximal number of elements
}

// listOf chooses up to max elements and the token after the last one. Each
// element is generated by f, which gets its number. The result is the source,
// and the notations of the elements.
func (g lists) listOf(min, max int, f func(i int) (string, string)) (src string, pns []string) {
	if max > g.cap {
		max = g.cap
	}
	n := min + vp.Choose(max-min+1)
	for i := 1; i <= n; i++ {
		s, p := f(i)
		if i > 1 {
			src += ", "
		}
		src += s
		pns = append(pns, p)
	}
	if n > 0 && vp.Bool() {
		src += ","
	}
	return
}

// sp returns the strings, each one after a space
func sp(s []string) string {
	r := ""
	for _, x := range s {
		r += " " + x
	}
	return r
}

// grouped returns the notations of the elements of a list in which adjacent entries are one hash
func grouped(els []string) (r []string) {
	in := false
	for _, e := range els {
		entry := strings.HasPrefix(e, "(=> ")
		switch {
		case entry && in:
			r[len(r)-1] += " " + e
		case entry:
			r = append(r, "(hash "+e)
		default:
			r = append(r, e)
		}
		if in && !entry {
			r[len(r)-2] += ")"
		}
		in = entry
	}
	if in {
		r[len(r)-1] += ")"
	}
	return
}

// entries: the entries and elements of a list remain in their order, and adjacent entries form a hash.
func (g lists) entries() (mode, src, pn string) {
	host := vp.Choose(9)
	min := 0
	if host == 4 || host >= 6 {
		min = 1
	}
	max := 3
	if host == 0 || host == 2 {
		max = 4
	}
	if vp.Thorough() {
		max = 5
	}
	c := string([]byte{vp.ByteOf(nameTail)})
	el, pns := g.listOf(min, max, func(i int) (string, string) {
		n := string([]byte{byte('0' + i)})
		switch vp.Choose(5) {
		case 1:
			return "k" + c + n + " => " + n, `(=> (qn "k` + c + n + `") ` + n + ")"
		case 2:
			return "type => " + n, `(=> (qn "type") ` + n + ")"
		case 3:
			return "[" + n + "]", "(array " + n + ")"
		case 4:
			return "function", `(qn "function")`
		}
		return n, n
	})
	pn = sp(grouped(pns))
	args := strings.TrimPrefix(pn, " ")
	switch host {
	case 0:
		src, pn = "$x = ["+el+"]", `(= (var "x") (array`+pn+"))"
	case 1:
		src, pn = "f("+el+")", `(invoke {:functor (qn "f") :args [`+args+"]})"
	case 2:
		src, pn = "$x = f("+el+")", `(= (var "x") (call {:functor (qn "f") :args [`+args+"]}))"
	case 3:
		src, pn = "$x.f("+el+") |$y| { 1 }", `(call-method {:functor (. (var "x") (qn "f")) :args [`+args+`] :block (lambda {:params {:y {}} :body [1]})})`
	case 4:
		src, pn = "$x = $y["+el+"]", `(= (var "x") (access (var "y")`+pn+"))"
	case 5:
		src, pn = "define d(Ty["+el+"] $p) { }", `(define {:name "d" :params {:p {:type (access (qr "Ty")`+pn+")}} :body []})"
	case 6:
		src, pn = "function f >> Ty["+el+"] { }", `(function {:name "f" :body [] :returns (access (qr "Ty")`+pn+")})"
	case 7:
		src, pn = "type T = Ty["+el+"]", `(type-alias "T" (access (qr "Ty")`+pn+"))"
	case 8:
		src, pn = "Ro["+el+"] { a => 1 }", `(resource-override {:resources (access (qr "Ro")`+pn+`) :ops [(=> "a" 1)]})`
		if len(pns) == 1 && pn == "" {
			vp.Assume(false)
		}
	}
	return "p", src, "(block " + pn + ")"
}

// nodes: the names of a node are those that it spells.
func (g lists) nodes() (mode, src, pn string) {
	c := string([]byte{vp.ByteOf(nameTail)})
	d := string([]byte{vp.ByteOf("0123456789")})
	one := func(i int) (string, string) {
		switch vp.Choose(12) {
		case 1:
			return "'n" + c + "'", `"n` + c + `"`
		case 2:
			return "/n" + c + "/", `(regexp "n` + c + `")`
		case 3:
			return "default", "(default)"
		case 4:
			return "nd.e" + c + "." + d, `"nd.e` + c + "." + d + `"`
		case 5:
			return "Nd" + c + ".ex", `"Nd` + c + `.ex"`
		case 6:
			return "1" + d + ".50.b", `"1` + d + `.50.b"`
		case 7:
			return "0" + d + "0", `"0` + d + `0"`
		case 8:
			return "\"a${x}" + c + "\"", `(concat "a" (str (var "x")) "` + c + `")`
		case 9:
			return "\"n" + c + "\"", `"n` + c + `"`
		case 10:
			return "nd.0x" + d, `"nd.0x` + d + `"`
		case 11:
			return "aa::b" + c, `"aa::b` + c + `"`
		}
		return "n" + c, `"n` + c + `"`
	}
	if d == "8" || d == "9" {
		vp.Assume(false)
	}
	max := 2
	if vp.Thorough() {
		max = 3
	}
	m, pns := g.listOf(1, max, one)
	src, pn = "node "+m, "(block (node {:matches ["+strings.Join(pns, " ")+"]"
	if vp.Bool() {
		s, p := one(0)
		src += " inherits " + s
		pn += " :parent " + p
	}
	if c == "a" || c == "f" || c == "d" || c == "i" || c == "o" {
		vp.Assume(false) // might be a keyword
	}
	return "p", src + " { 1 } $y", pn + " :body [1]}) (var \"y\"))"
}

// parameters: a list of parameters yields them in order, with their parts, wherever it is.
func (g lists) parameters() (mode, src, pn string) {
	host := vp.Choose(9)
	array := host == 7 || host == 8
	c := string([]byte{vp.ByteOf(nameTail)})
	max := 3
	if !vp.Thorough() && host > 1 {
		max = 2
	}
	src, pns := g.listOf(0, max, func(i int) (string, string) {
		n := string([]byte{byte('0' + i)})
		name := "p" + c + n
		s, p := "", ""
		if vp.Bool() {
			if vp.Bool() {
				s, p = "Ty"+n+" ", ` :type (qr "Ty`+n+`")`
			} else {
				s, p = "Ty["+n+", a => 1] ", ` :type (access (qr "Ty") `+n+` (hash (=> (qn "a") 1)))`
			}
		}
		if vp.Bool() {
			s += "*"
			p += " :splat true"
		}
		s += "$" + name
		if vp.Bool() {
			s += " = -" + n
			p += " :value -" + n
		}
		if array {
			return s, `(param {:name "` + name + `"` + p + "})"
		}
		return s, ":" + name + " {" + strings.TrimPrefix(p, " ") + "}"
	})
	pn = strings.Join(pns, " ")
	if !array && pn != "" {
		pn = ":params {" + pn + "} "
	}
	if array {
		pn = sp(pns)
	}
	mode = "p"
	switch host {
	case 0:
		src, pn = "class x("+src+") { 1 }", `(class {:name "x" `+pn+":body [1]})"
	case 1:
		src, pn = "define x("+src+") { 1 }", `(define {:name "x" `+pn+":body [1]})"
	case 2:
		src, pn = "function x("+src+") { 1 }", `(function {:name "x" `+pn+":body [1]})"
	case 3:
		src, pn = "application x("+src+") { 1 }", `(application {:name "x" `+pn+":body [1]})"
	case 4:
		mode = "t"
		src, pn = "plan x("+src+") { 1 }", `(plan {:name "x" `+pn+":body [1]})"
	case 5:
		src, pn = "x() |"+src+"| { 1 }", `(invoke {:functor (qn "x") :args [] :block (lambda {`+pn+":body [1]})})"
	case 6:
		mode = "e"
		src = "<%| " + src + " |%>t"
		return mode, src, "(lambda {" + pn + `:body [(epp (render-s "t"))]})`
	case 7:
		mode = "w"
		src, pn = "action x { parameters => ("+src+") } { 1 }", `(step {:name "x" :style "action" :properties (hash (=> (qn "parameters") (array`+pn+"))) :definition (block 1)})"
	case 8:
		mode = "w"
		src, pn = "resource x { } each("+src+") |$y| { }", `(step {:name "x" :style "resource" :properties (hash (=> (qn "iteration") (hash (=> (qn "name") (qn "x")) (=> (qn "function") (qn "each")) (=> (qn "params") (array`+pn+`)) (=> (qn "vars") (array (param {:name "y"}))))))})`
	}
	return mode, src, "(block " + pn + ")"
}

// operations: operations on attributes are those that the source spells, in order, wherever they are.
func (g lists) operations() (mode, src, pn string) {
	host := vp.Choose(10)
	c := string([]byte{vp.ByteOf(nameTail)})
	max := 3
	if !vp.Thorough() && host%3 > 0 {
		max = 2
	}
	src, pns := g.listOf(0, max, func(i int) (string, string) {
		n := string([]byte{byte('0' + i)})
		switch vp.Choose(6) {
		case 1:
			return "k" + c + " +> " + n, `(+> "k` + c + `" ` + n + ")"
		case 2:
			return "* => $v" + c, `(splat-hash (var "v` + c + `"))`
		case 3:
			return "type => " + n, `(=> "type" ` + n + ")"
		case 4:
			return "unless => [" + n + "]", `(=> "unless" (array ` + n + "))"
		case 5:
			return "k" + n + " => undef", `(=> "k` + n + `" nil)`
		}
		return "k" + c + n + " => " + n, `(=> "k` + c + n + `" ` + n + ")"
	})
	pn = strings.Join(pns, " ")
	switch host {
	case 0:
		src, pn = "r { 't': "+src+" }", `(resource {:type (qn "r") :bodies [{:title "t" :ops [`+pn+"]}]})"
	case 1:
		src, pn = "r { 't': "+src+"; $u: "+src+"; }", `(resource {:type (qn "r") :bodies [{:title "t" :ops [`+pn+`]} {:title (var "u") :ops [`+pn+"]}]})"
	case 2:
		src, pn = "@r { ['t', 'u']: "+src+" }", `(resource {:type (qn "r") :bodies [{:title (array "t" "u") :ops [`+pn+`]}] :form "virtual"})`
	case 3:
		src, pn = "Rs { "+src+" }", `(resource-defaults {:type (qr "Rs") :ops [`+pn+"]})"
	case 4:
		src, pn = "@@Rs { "+src+" }", `(resource-defaults {:type (qr "Rs") :ops [`+pn+`] :form "exported"})`
	case 5:
		src, pn = "Rs[t] { "+src+" }", `(resource-override {:resources (access (qr "Rs") (qn "t")) :ops [`+pn+"]})"
	case 6:
		src, pn = "Resource[t] { "+src+" }", `(resource-defaults {:type (access (qr "Resource") (qn "t")) :ops [`+pn+"]})"
	case 7:
		if pn != "" {
			pn = " :ops [" + pn + "]"
		}
		src, pn = "Rs <| a == 1 |> { "+src+" }", `(collect {:type (qr "Rs") :query (virtual-query (== (qn "a") 1))`+pn+"})"
	case 8:
		src, pn = "Rs produces Cp { "+src+" }", `(produces (qr "Rs") ["Cp"`+sp(pns)+"])"
	case 9:
		src, pn = "class { default: "+src+" }", `(resource {:type (qn "class") :bodies [{:title (default) :ops [`+pn+"]}]})"
	}
	return "p", src, "(block " + pn + ")"
}

// postfix: accesses and calls apply to what precedes them, in order.
func (g lists) postfix() (mode, src, pn string) {
	c := string([]byte{vp.ByteOf(nameTail)})
	starts := [][2]string{{"$a" + c, `(var "a` + c + `")`}, {"f" + c + "(0)", `(call {:functor (qn "f` + c + `") :args [0]})`}, {"T" + c, `(qr "T` + c + `")`}, {"[0]", "(array 0)"}, {"(0)", "(paren 0)"}, {"'s'", `"s"`}}
	s := starts[vp.Choose(len(starts))]
	src, pn = s[0], s[1]
	n := 1 + vp.Choose(3)
	if vp.Thorough() {
		n += vp.Choose(2)
	}
	name := ""                                      // of a method that has no arguments yet
	open := src[len(src)-1] == ')' && src[0] == 'f' // ends with arguments
	for i := 1; i <= n; i++ {
		d := string([]byte{byte('0' + i)})
		k := vp.Choose(7)
		args, block := "", ""
		if k < 3 {
			open = false
		}
		switch k {
		case 0: // access
			if name != "" {
				pn, name = "(call-method {:functor (. "+pn+" "+name+") :args []})", ""
			}
			if vp.Bool() {
				src, pn = src+"["+d+"]", "(access "+pn+" "+d+")"
			} else {
				src, pn = src+"["+d+", $i]", "(access "+pn+" "+d+` (var "i"))`
			}
			continue
		case 1, 2:
			if name != "" {
				pn = "(call-method {:functor (. " + pn + " " + name + ") :args []})"
			}
			m := "m" + c + d
			if k == 2 {
				m = "type"
			}
			src, name = src+"."+m, `(qn "`+m+`")`
			continue
		case 3:
			src, args = src+"("+d+")", d
		case 4:
			src += "()"
		case 5:
			if open {
				vp.Assume(false) // belongs to the arguments
			}
			src, block = src+" |$b"+d+"| { "+d+" }", " :block (lambda {:params {:b"+d+" {}} :body ["+d+"]})"
		case 6:
			src, args, block = src+"("+d+", $j) |$b"+d+"| { }", d+` (var "j")`, " :block (lambda {:params {:b"+d+" {}} :body []})"
		}
		open = block == ""
		if name != "" {
			pn, name = "(call-method {:functor (. "+pn+" "+name+") :args ["+args+"]"+block+"})", ""
		} else {
			pn = "(call {:functor " + pn + " :args [" + args + "]" + block + "})"
		}
	}
	if name != "" {
		pn = "(call-method {:functor (. " + pn + " " + name + ") :args []})"
	}
	return "p", "$x = " + src, `(block (= (var "x") ` + pn + "))"
}

// types: a type alias has the type that the source spells.
func (g lists) types() (mode, src, pn string) {
	c := string([]byte{vp.ByteOf(nameTail)})
	ent, pns := g.listOf(0, 3, func(i int) (string, string) {
		n := string([]byte{byte('0' + i)})
		switch vp.Choose(3) {
		case 1:
			return "'k" + c + "' => " + n, `(=> "k` + c + `" ` + n + ")"
		case 2:
			return "type => T" + c, `(=> (qn "type") (qr "T` + c + `"))`
		}
		return "k" + n + " => {}", `(=> (qn "k` + n + `") (hash))`
	})
	hash := "(hash" + sp(pns) + ")"
	src, pn = "", ""
	switch vp.Choose(10) {
	case 0:
		src, pn = "Object {"+ent+"}", `(access (qr "Object") `+hash+")"
	case 1:
		src, pn = "TypeSet{"+ent+"}", `(access (qr "TypeSet") `+hash+")"
	case 2:
		src, pn = "P"+c+" {"+ent+"}", `(access (qr "Object") (hash (=> "parent" (qr "P`+c+`"))`+sp(pns)+"))"
	case 3:
		src, pn = "P::O"+c+" {"+ent+"}", `(access (qr "Object") (hash (=> "parent" (qr "P::O`+c+`"))`+sp(pns)+"))"
	case 4:
		src, pn = "{"+ent+"}", `(access (qr "Object") `+hash+")"
	case 5:
		src, pn = "[{"+ent+"}]", `(access (qr "Object") `+hash+")"
	case 6:
		src, pn = "[{"+ent+"}, 1]", "(array "+hash+" 1)"
	case 7:
		src, pn = "Object[{"+ent+"}]", `(access (qr "Object") `+hash+")"
	case 8:
		src, pn = "P"+c+"["+ent+"]", `(access (qr "P`+c+`") `+hash+")"
		if len(pns) == 0 {
			vp.Assume(false)
		}
	case 9:
		src, pn = "P"+c, `(qr "P`+c+`")`
		if len(pns) > 0 {
			vp.Assume(false)
		}
	}
	return "p", "type A" + c + " = " + src + " $y", `(block (type-alias "A` + c + `" ` + pn + `) (var "y"))`
}

// selectors: a selector has the cases that the source spells, in order, and applies to what precedes it.
func (g lists) selectors() (mode, src, pn string) {
	c := string([]byte{vp.ByteOf(nameTail)})
	var sel func(depth int) (string, string)
	sel = func(depth int) (string, string) {
		one := func(i int) (string, string) {
			n := string([]byte{byte('0' + i)})
			k, kp := n, n
			switch vp.Choose(4) {
			case 1:
				k, kp = "default", "(default)"
			case 2:
				k, kp = "/r"+c+"/", `(regexp "r`+c+`")`
			case 3:
				k, kp = "'k' + "+n, `(+ "k" `+n+")"
			}
			v, vp2 := "$v"+n, `(var "v`+n+`")`
			if depth > 0 && (i == 1 || vp.Thorough()) && vp.Bool() {
				s, p := sel(depth - 1)
				v, vp2 = "$w ? "+s, `(? (var "w") [`+p+"])"
			}
			return k + " => " + v, "(=> " + kp + " " + vp2 + ")"
		}
		if depth == 0 && vp.Bool() {
			return one(4)
		}
		if depth == 0 {
			s, p := g.listOf(1, 1, one)
			return "{" + s + "}", strings.Join(p, " ")
		}
		s, p := g.listOf(0, 2, one)
		return "{" + s + "}", strings.Join(p, " ")
	}
	s, p := sel(1)
	src, pn = "$a"+c+" ? "+s, `(? (var "a`+c+`") [`+p+"])"
	if vp.Bool() {
		s, p := sel(0)
		src, pn = src+" ? "+s, "(? "+pn+" ["+p+"])"
	}
	return "p", "$x = " + src, `(block (= (var "x") ` + pn + "))"
}

// shapes: braces after an expression are the resource, defaults, or override that the expression tells.
func (g lists) shapes() (mode, src, pn string) {
	c := string([]byte{vp.ByteOf(nameTail)})
	firsts := []struct{ src, pn, kind string }{
		{"rs" + c, `(qn "rs` + c + `")`, ""},
		{"rs::t" + c, `(qn "rs::t` + c + `")`, ""},
		{"Rs" + c, `(qr "Rs` + c + `")`, "defaults"},
		{"::Rs" + c, `(qr "::Rs` + c + `")`, "defaults"},
		{"Rs::T" + c, `(qr "Rs::T` + c + `")`, "defaults"},
		{"Rs[x" + c + "]", `(access (qr "Rs") (qn "x` + c + `"))`, "override"},
		{"Rs[x, 'y']", `(access (qr "Rs") (qn "x") "y")`, "override"},
		{"Resource[x" + c + "]", `(access (qr "Resource") (qn "x` + c + `"))`, "defaults"},
		{"Resource[x, y]", `(access (qr "Resource") (qn "x") (qn "y"))`, "override"},
		{"Resources[x" + c + "]", `(access (qr "Resources") (qn "x` + c + `"))`, "override"},
		{"Rs[x][y]", `(access (access (qr "Rs") (qn "x")) (qn "y"))`, "override"},
		{"$r" + c, `(var "r` + c + `")`, ""},
		{"'rs'", `"rs"`, ""},
		{"(rs)", `(paren (qn "rs"))`, ""},
		{"class", `(qn "class")`, ""},
	}
	f := firsts[vp.Choose(len(firsts))]
	form := vp.Choose(3)
	src, at := forms[form]+f.src, formsPN[form]
	if form == 1 && f.src[0] == '(' {
		vp.Assume(false) // a heredoc
	}
	if vp.Bool() {
		return "p", src + " { 't': a => 1 } $y", `(block (resource {:type ` + f.pn + ` :bodies [{:title "t" :ops [(=> "a" 1)]}]` + at + `}) (var "y"))`
	}
	src += []string{" { a => 1 }", " { if => 1, }", " { * => $x }", " { }"}[vp.Choose(4)]
	pn = `:ops []`
	switch {
	case strings.Contains(src, "{ a"):
		pn = `:ops [(=> "a" 1)]`
	case strings.Contains(src, "{ if"):
		pn = `:ops [(=> "if" 1)]`
	case strings.Contains(src, "{ *"):
		pn = `:ops [(splat-hash (var "x"))]`
	}
	switch f.kind {
	case "defaults":
		return "p", src + " $y", "(block (resource-defaults {:type " + f.pn + " " + pn + at + `}) (var "y"))`
	case "override":
		return "p", src + " $y", "(block (resource-override {:resources " + f.pn + " " + pn + at + `}) (var "y"))`
	default:
		return "p", src, "" // neither
	}
}

func (g lists) some() (mode, src, pn string) {
	switch vp.Choose(8) {
	case 0:
		return g.entries()
	case 1:
		return g.nodes()
	case 2:
		return g.parameters()
	case 3:
		return g.operations()
	case 4:
		return g.postfix()
	case 5:
		return g.types()
	case 6:
		return g.selectors()
	default:
		return g.shapes()
	}
}

// someLists generates a source and its tree.
func someLists(quick, thorough int) (mode, src string, e parser.Expression) {
	g := lists{cap: quick}
	if vp.Thorough() {
		g.cap = thorough
	}
	mode, src, pn := g.some()
	if pn == "" {
		vp.Assume(false)
	}
	return mode, src, parsed(mode, src)
}

// C25_lists: all parts of what consists of several parts of a kind are retained, in order.
func C25_lists() {
	mode, src, pn := lists{cap: 9}.some()
	if pn == "" {
		e, err := ParseMode(mode, src)
		if err == nil {
			vp.Fail("accepted: " + src + " as " + e.ToPN().String())
		}
		return
	}
	expectPN(mode, src, pn)
}

// C10_lists: each part is at its place in the source.
func C10_lists() {
	mode, src, e := someLists(2, 3)
	checkSpans(mode, src, "", e)
}

// C14_lists: each part is visited.
func C14_lists() {
	_, _, e := someLists(2, 3)
	checkVisits(e)
}

// C28_lists: the accessors deliver each part.
func C28_lists() {
	_, _, e := someLists(2, 3)
	checkAccessors(e)
}
