package h

import "vpharness/vp"

// bop is a binary operator and its precedence
type bop struct {
	s string
	l int
}

// operator returns an arbitrary operator. Each alternative is a level of
// precedence and the characters that vary within it are symbolic.
func operator() bop {
	c := func(set string) string { return string([]byte{vp.ByteOf(set)}) }
	switch vp.Choose(15) {
	case 0:
		return bop{c("-~") + ">", 1}
	case 1:
		return bop{"<" + c("-~"), 1}
	case 2:
		return bop{"=", 2} // right associative
	case 3:
		return bop{c("+-") + "=", 2}
	case 4:
		return bop{"or", 4}
	case 5:
		return bop{"and", 5}
	case 6:
		return bop{c("<>"), 6}
	case 7:
		return bop{c("<>") + "=", 6}
	case 8:
		return bop{c("=!") + "=", 7}
	case 9:
		return bop{"<<", 8}
	case 10:
		return bop{">>", 8}
	case 11:
		return bop{c("+-"), 9}
	case 12:
		return bop{c("*/%"), 10}
	case 13:
		return bop{c("=!") + "~", 11}
	}
	return bop{"in", 12}
}

// grouping is the expected tree of operands xs with operators ops
type grouping struct {
	xs  []string
	ops []bop
	i   int // next operator
}

func (g *grouping) expr(min int) string {
	left := g.xs[g.i]
	for g.i < len(g.ops) && g.ops[g.i].l >= min {
		op := g.ops[g.i]
		next := op.l + 1
		if op.l == 2 {
			next = 2
		}
		g.i++
		right := g.expr(next)
		left = "(" + op.s + " " + left + " " + right + ")"
	}
	return left
}

const listHead, listEnd = "(block (array ", "))"

func operand(i int) (src, pn string) {
	n := string([]byte{"pqrstuv"[i], vp.ByteOf(nameTail)})
	return "$" + n, `(var "` + n + `")`
}

// C08_binary: binary operators group by precedence and associativity.
func C08_binary() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	src, g := "[", grouping{}
	for i := 0; i <= n; i++ {
		if i > 0 {
			op := operator()
			g.ops = append(g.ops, op)
			src += " " + op.s + " "
		}
		s := "pqrstuv"[i : i+1]
		src += "$" + s
		g.xs = append(g.xs, `(var "`+s+`")`)
	}
	expectPN("p", src+"]", listHead+g.expr(1)+listEnd)
}

func prefixed(src, pn string) (string, string) {
	n := 1
	if vp.Thorough() {
		n = 2
	}
	for i := vp.Choose(n + 1); i > 0; i-- {
		switch vp.Choose(3) {
		case 0:
			src, pn = "!"+src, "(! "+pn+")"
		case 1:
			src, pn = "*"+src, "(unfold "+pn+")"
		default:
			if src[0] == '!' || src[0] == '*' || src[0] == '-' {
				vp.Assume(false) // the operand of a minus is no prefix operator
			}
			src, pn = "-"+src, "(- "+pn+")"
		}
	}
	return src, pn
}

// C08_unary: prefix operators bind tighter than binary operators, and
// access and calls bind tighter than both.
func C08_unary() {
	src, g := "[", grouping{}
	for i := 0; i <= 1; i++ {
		if i > 0 {
			op := operator()
			g.ops = append(g.ops, op)
			src += " " + op.s + " "
		}
		s, p := operand(i)
		switch vp.Choose(4) {
		case 1:
			s, p = s+"[7]", "(access "+p+" 7)"
		case 2:
			s, p = s+".b(7)", "(call-method {:functor (. "+p+` (qn "b")) :args [7]})`
		case 3:
			s, p = "f(7)", `(call {:functor (qn "f") :args [7]})`
		}
		s, p = prefixed(s, p)
		src += s
		g.xs = append(g.xs, p)
	}
	expectPN("p", src+"]", listHead+g.expr(1)+listEnd)
}

// C08_parens: parentheses override precedence.
func C08_parens() {
	src, g := "", grouping{}
	from := vp.Choose(3)
	to := from + vp.Choose(3-from)
	in := grouping{}
	for i := 0; i <= 2; i++ {
		s, p := operand(i)
		if i > 0 {
			op := operator()
			src += " " + op.s + " "
			if i > from && i <= to {
				in.ops = append(in.ops, op)
			} else {
				g.ops = append(g.ops, op)
			}
		}
		if i == from {
			src += "("
		}
		src += s
		if i >= from && i <= to {
			in.xs = append(in.xs, p)
		} else {
			g.xs = append(g.xs, p)
		}
		if i == to {
			src += ")"
			g.xs = append(g.xs, "(paren "+in.expr(1)+")")
		}
	}
	expectPN("p", "["+src+"]", listHead+g.expr(1)+listEnd)
}

// C08_select: a selector binds tighter than an assignment and looser than
// the other operators.
func C08_select() {
	g := grouping{}
	s, p := operand(0)
	g.xs = append(g.xs, p)
	src := s
	n := 2
	for i := 1; i <= n; i++ {
		op := operator()
		s, p := operand(i)
		src += " " + op.s + " " + s
		g.ops = append(g.ops, op)
		g.xs = append(g.xs, p)
	}
	// what is to the left of the selector is the longest tail of operators
	// that bind tighter
	k := n
	for k > 0 && g.ops[k-1].l > 3 {
		k--
	}
	t := grouping{xs: g.xs[k:], ops: g.ops[k:]}
	sel := "(? " + t.expr(1) + " [(=> (default) 7)])"
	o := grouping{xs: append(append([]string{}, g.xs[:k]...), sel), ops: g.ops[:k]}
	if vp.Bool() {
		// followed by an operator that binds looser
		op := []bop{{"->", 1}, {"<~", 1}}[vp.Choose(2)]
		o.ops = append(append([]bop{}, o.ops...), op)
		o.xs = append(o.xs, `(var "z")`)
		expectPN("p", "["+src+" ? { default => 7 } "+op.s+" $z]", listHead+o.expr(1)+listEnd)
		return
	}
	expectPN("p", "["+src+" ? { default => 7 }]", listHead+o.expr(1)+listEnd)
}

// C08_contexts: an expression groups in the same way wherever it is.
func C08_contexts() {
	src, g := "", grouping{}
	for i := 0; i <= 2; i++ {
		if i > 0 {
			op := operator()
			g.ops = append(g.ops, op)
			src += " " + op.s + " "
		}
		s := "pqr"[i : i+1]
		src += "$" + s
		g.xs = append(g.xs, `(var "`+s+`")`)
	}
	x := g.expr(1)
	lev := 13
	for _, o := range g.ops {
		if o.l < lev {
			lev = o.l
		}
	}
	switch vp.Choose(8) {
	case 0:
		expectPN("p", src, "(block "+x+")")
	case 1:
		expectPN("p", "f("+src+", 7)", `(block (invoke {:functor (qn "f") :args [`+x+" 7]}))")
	case 2:
		expectPN("p", "$b = { 7 => "+src+" }", `(block (= (var "b") (hash (=> 7 `+x+`))))`)
	case 3:
		expectPN("p", "{ "+src+" => 7 }", `(block (hash (=> `+x+` 7)))`)
	case 4:
		vp.Assume(lev > 3)
		expectPN("p", "if "+src+" { 7 }", `(block (if {:test `+x+` :then [7]}))`)
	case 5:
		expectPN("p", `"a${[`+src+`]}"`, `(block (concat "a" (str (array `+x+`))))`)
	case 6:
		expectPN("p", "$b["+src+"]", `(block (access (var "b") `+x+`))`)
	default:
		expectPN("e", "x<%= ["+src+"] %>y", `(lambda {:body [(epp (render-s "x") (render (array `+x+`)) (render-s "y"))]})`)
	}
}

// C08_statement: operators apply to the operands next to them, also without
// white space between.
func C08_space() {
	op1, op2 := operator(), operator()
	vp.Assume(!lower(op1.s[0]) && !lower(op2.s[0])) // words need space
	g := grouping{xs: []string{`(var "p")`, `(var "q")`, `(var "r")`}, ops: []bop{op1, op2}}
	l, r := []string{"", " ", "\n"}[vp.Choose(3)], []string{"", " ", "\n"}[vp.Choose(3)]
	expectPN("p", "[$p"+l+op1.s+r+"$q"+r+op2.s+l+"$r]", listHead+g.expr(1)+listEnd)
}
