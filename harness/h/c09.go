package h

import "vpharness/vp"

// layout returns an arbitrary layout: white space or a comment.
func layout(kind int) string {
	switch kind {
	case 0:
		return string([]byte{vp.ByteOf(" \t\r\n")})
	case 1:
		c := vp.Byte()
		vp.Assume(c > 0 && c < 0x80)
		return "#" + string([]byte{c}) + "\n"
	case 2:
		c := vp.Byte()
		vp.Assume(c > 0 && c < 0x80)
		return "/*" + string([]byte{c}) + "*/"
	case 3:
		return vp.BytesOf(" \t\r\n", 2)
	case 4:
		return " /*" + vp.BytesOf("*/ \n'\"#", 3) + "*/" + vp.BytesOf(" \n", 1)
	default:
		return "\n#" + vp.BytesOf("*/ #'\"$\r", 3) + "\n" + vp.BytesOf(" \n", 1)
	}
}

func gapOf(t *tmpl) int {
	if len(t.gaps) == 0 || hasByte(t.src, '#') {
		vp.Assume(false) // gaps in comments depend on what is inserted
	}
	return t.gaps[vp.Choose(len(t.gaps))]
}

func layoutKinds() int {
	if vp.Thorough() {
		return 6
	}
	return 3
}

// C09_gaps: layout between two tokens is insignificant.
func C09_gaps() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := gapOf(t)
	l := layout(vp.Choose(layoutKinds()))
	expectPN(t.mode, t.src[:at]+l+t.src[at:], t.pn)
}

// C09_comments: the text of a comment is insignificant.
func C09_comments() {
	n := lenFor(3, 5)
	s := vp.Bytes(n)
	for i := 0; i < n; i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80)
	}
	var l string
	switch vp.Choose(4) {
	case 0:
		for i := 0; i < n; i++ {
			vp.Assume(s[i] != '\n')
		}
		l = "#" + s + "\n"
	case 1:
		for i := 1; i < n; i++ {
			vp.Assume(s[i-1] != '*' || s[i] != '/')
		}
		l = "/*" + s + "*/"
	case 2:
		for i := 0; i < n; i++ {
			vp.Assume(s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')
		}
		l = s
	default:
		for i := 0; i < n; i++ {
			vp.Assume(s[i] != '\n')
		}
		l = "#\u00e5\u4e16" + s + "\n/*\u00e5\U0001f600*/"
	}
	switch vp.Choose(4) {
	case 0:
		expectPN("p", "$a = 1"+l+"\n$b = 2", `(block (= (var "a") 1) (= (var "b") 2))`)
	case 1:
		expectPN("p", l+"$a = [1,"+l+"2] + x("+l+")", `(block (= (var "a") (+ (array 1 2) (call {:functor (qn "x") :args []}))))`)
	case 2:
		expectPN("p", "$a = { b "+l+"=> 'c' "+l+"}"+l, `(block (= (var "a") (hash (=> (qn "b") "c"))))`)
	default:
		expectPN("e", "x <% "+l+"if $a {"+l+"%> y <% "+l+"} %>z", `(lambda {:body [(epp (render-s "x ") (if {:test (var "a") :then [(render-s " y ")]}) (render-s "z"))]})`)
	}
}

// C09_grammar: layout in combinations of constructs.
func C09_grammar() {
	g := someGram(1, 2)
	src, pn := g.source()
	if len(g.gaps) == 0 {
		return
	}
	at := g.gaps[vp.Choose(len(g.gaps))]
	expectPN(g.mode, src[:at]+layout(vp.Choose(layoutKinds()))+src[at:], pn)
}

// C09_all: the same layout in all gaps of combinations of constructs.
func C09_all() {
	g := someGram(2, 3)
	src, pn := g.source()
	l := []string{"\n", "#\n", "/* */", "\r\n\t"}[vp.Choose(4)]
	s, from := "", 0
	for _, at := range g.gaps {
		s += src[from:at] + l
		from = at
	}
	expectPN(g.mode, s+src[from:], pn)
}
