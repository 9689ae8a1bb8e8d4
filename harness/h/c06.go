package h

import (
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

func hblank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' }

// endLine tells if the line is the end of a heredoc with the given tag
func endLine(line, tag string) (ok bool, margin int, strip bool) {
	i := 0
	for hblank(at(line, i)) {
		i++
	}
	if at(line, i) == '|' {
		margin = i
		i++
		for hblank(at(line, i)) {
			i++
		}
	}
	if at(line, i) == '-' {
		strip = true
		i++
		for hblank(at(line, i)) {
			i++
		}
	}
	if len(line)-i < len(tag) || line[i:i+len(tag)] != tag {
		return false, 0, false
	}
	for i += len(tag); i < len(line); i++ {
		if !hblank(line[i]) {
			return false, 0, false
		}
	}
	return true, margin, strip
}

// hasEnd tells if one of the lines of the text is an end line
func hasEnd(s, tag string) bool {
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '\n' {
			if ok, _, _ := endLine(s[start:i], tag); ok {
				return true
			}
			start = i + 1
		}
	}
	return false
}

// heredocText decodes the raw text (which includes the final newline). The
// result is false when it is malformed.
func heredocText(s string, margin int, strip bool, flags string, quoted bool) (segs []seg, ok bool) {
	if strip && len(s) > 0 {
		s = s[:len(s)-1]
		if len(s) > 0 && s[len(s)-1] == '\r' {
			s = s[:len(s)-1]
		}
	}
	var b []byte
	unindent := func(i int) int {
		for n := 0; n < margin; n++ {
			if !blank(at(s, i+n)) {
				return i
			}
		}
		return i + margin
	}
	i := unindent(0)
	for i < len(s) {
		c := s[i]
		i++
		if c == '\\' && i < len(s) {
			d := s[i]
			f := d
			if d == '\n' {
				f = 'L'
			}
			if f == 'L' && d == 'L' || !hasByte(flags, f) {
				b = append(b, '\\')
				continue2 := d == '\\'
				if continue2 {
					b = append(b, '\\')
					i++
				}
				continue
			}
			i++
			switch d {
			case 'n':
				b = append(b, '\n')
			case 'r':
				b = append(b, '\r')
			case 't':
				b = append(b, '\t')
			case 's':
				b = append(b, ' ')
			case '$':
				b = append(b, '$')
			case '\n':
				i = unindent(i)
			case 'u':
				r, e := unicodeEscape(s, i)
				if e < 0 {
					return nil, false
				}
				b = append(b, string(r)...)
				i = e
			}
			continue
		}
		if c == '$' && quoted {
			e := varName(s, i)
			if e < 0 {
				return nil, false
			}
			if len(b) > 0 {
				segs = append(segs, seg{false, string(b)})
				b = nil
			}
			segs = append(segs, seg{true, s[i:e]})
			i = e
			continue
		}
		b = append(b, c)
		if c == '\n' {
			i = unindent(i)
		}
	}
	if len(b) > 0 || len(segs) == 0 {
		segs = append(segs, seg{false, string(b)})
	}
	return segs, true
}

// afterHeredoc checks that the statement after the line with the heredoc is
// seen, and returns the list that contains the heredocs.
func afterHeredoc(mode, src string) []parser.Expression {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	ss := e.(*parser.Program).Body().(*parser.BlockExpression).Statements()
	if len(ss) != 2 {
		vp.Fail("statements in " + src)
	}
	a, ok := ss[1].(*parser.AssignmentExpression)
	if !ok {
		vp.Fail("statement after heredoc in " + src)
	}
	isVariable(a.Lhs(), "y", src)
	l, ok := ss[0].(*parser.LiteralList)
	if !ok {
		vp.Fail("statement with heredoc in " + src)
	}
	els := l.Elements()
	i, ok := els[len(els)-1].(*parser.LiteralInteger)
	vp.Assert(ok && i.Int() == 7, "code after heredoc in "+src)
	return els[:len(els)-1]
}

func isHeredoc(e parser.Expression, syntax string, segs []seg, src string) {
	h, ok := e.(*parser.HeredocExpression)
	if !ok {
		vp.Fail("not a heredoc in " + src)
	}
	vp.Assert(h.Syntax() == syntax, "syntax is "+h.Syntax()+" in "+src)
	isSegments(h.Text(), segs, src)
}

// checkHeredoc decides one heredoc. The text is either empty, or ends with a
// newline.
func checkHeredoc(quoted bool, syntax, flags, text, margin, mods string) {
	const tag = "END"
	vp.Assume(!hasEnd(text, tag))
	decl := tag
	if quoted {
		decl = `"END"`
	}
	if syntax != "" {
		decl += ":" + syntax
	}
	if flags != "" {
		decl += "/" + flags
	}
	end := margin + mods + tag
	src := "[@(" + decl + "), 7]\n" + text + end + "\n$y = 8"
	ok, m, strip := endLine(end, tag)
	vp.Assert(ok, "harness")
	segs, legal := heredocText(text, m, strip, flags, quoted)
	if !legal {
		vp.Cover("malformed")
		rejected("p", src)
		return
	}
	els := afterHeredoc("p", src)
	vp.Assert(len(els) == 1, "elements in "+src)
	isHeredoc(els[0], syntax, segs, src)
}

// C06_plain: text without margin and without escapes is taken verbatim,
// also when it contains quotes, comments, or backslashes.
func C06_plain() {
	n := lenFor(5, 7)
	s := vp.Bytes(n)
	for i := 0; i < n; i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80)
	}
	if n > 0 {
		s += "\n"
	}
	if vp.Bool() {
		s = "\u00e5\u4e16\n" + s
	}
	checkHeredoc(false, []string{"", "json"}[vp.Choose(2)], "", s, "", []string{"", "-"}[vp.Choose(2)])
}

// C06_lines: lines that look like the end line
func C06_lines() {
	n := 5
	if vp.Thorough() {
		n = 7
	}
	s := "x\n" + vp.BytesOf("-| Ex\n", vp.Choose(n)) + "\n"
	line := []string{"END x", "ENDx", "xEND", "EN", "- ENDx", "|ENDx", "| - xEND", "", "END-", "END|", "EN D"}[vp.Choose(11)]
	s += line + "\n"
	k := vp.Choose(4)
	checkHeredoc(false, "", "", s, []string{"", "", "  ", "  | "}[k], []string{"", "-", "", "- "}[k])
}

// C06_margin: the margin is removed from the lines that have it.
func C06_margin() {
	n := 5
	if vp.Thorough() {
		n = 7
	}
	s := "  " + vp.BytesOf("ab \t\n", n) + "\n"
	m := []string{" ", "  ", "\t", "   ", "    "}[vp.Choose(5)]
	checkHeredoc(vp.Bool(), "", "", s, m, []string{"|", "|-", "| ", "|- ", "| -", "", "-", "- "}[vp.Choose(8)])
}

// C06_end: all forms of the end line are recognized.
func C06_end() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	ws := func(n int) string { return vp.BytesOf(" \t", vp.Choose(n+1)) }
	m := ws(n)
	mods := ""
	if vp.Bool() {
		mods += "|" + ws(n)
	}
	if vp.Bool() {
		mods += "-" + ws(n)
	}
	const text = "  a\n b\n\tc\nd\n"
	tail := vp.BytesOf(" \t\r", vp.Choose(n+1))
	end := m + mods + "END" + tail
	src := "[@(END), 7]\n" + text + end
	if vp.Bool() {
		src += "\n$y = 8"
	} else {
		src = "[@(END), 7]; $y = 8\n" + text + end // at end of source
	}
	ok, margin, strip := endLine(end, "END")
	vp.Assert(ok, "harness")
	segs, _ := heredocText(text, margin, strip, "", false)
	isHeredoc(afterHeredoc("p", src)[0], "", segs, src)
}

// C06_escapes: only the escapes that are enabled have an effect.
func C06_escapes() {
	n := 4
	if vp.Thorough() {
		n = 6
	}
	s := `x\` + vp.BytesOf("\\trns$Lqa\n ", n) + "z\n"
	flags := []string{"", "t", "r", "n", "s", "$", "L", "tL", "nr", "trnsuL$"}[vp.Choose(10)]
	m := vp.Choose(3)
	if m > 0 {
		s = "  " + s
	}
	checkHeredoc(false, "", flags, s, []string{"", "  ", " "}[m], []string{"", "|", "|-"}[m])
}

// C06_unicode: unicode escapes, when enabled.
func C06_unicode() {
	s := `x\u` + vp.BytesOf("06aFg", 4) + "z\n"
	if vp.Bool() {
		s = `x\u{` + vp.BytesOf("06aF", vp.Choose(4)) + string([]byte{vp.ByteOf("}g")}) + "z\n"
	}
	checkHeredoc(false, "", []string{"u", "n", "nu", ""}[vp.Choose(4)], s, "", "")
}

// C06_variable: variables in the text, when the tag is quoted.
func C06_variable() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	s := "x " + vp.BytesOf(`\$:a_0 n`, n) + "$q z\n"
	m := vp.Choose(2)
	checkHeredoc(vp.Bool(), "", []string{"", "$", "n", "n$"}[vp.Choose(4)], s, []string{"", "  "}[m], []string{"", "|"}[m])
}

// C06_interpolation: expressions in the text.
func C06_interpolation() {
	t := vp.BytesOf("ab}'-|\n ", vp.Choose(4))
	b := string([]byte{vp.ByteOf("abc \n}{|$\"#/")})
	s := "  x${\"" + b + "\"}" + t + "\n  z\n"
	if b == "$" || b == `"` {
		return
	}
	vp.Assume(!hasEnd(s, "END"))
	src := `[@("END"), 7]` + "\n" + s + "  | END\n$y = 8"
	h, ok := afterHeredoc("p", src)[0].(*parser.HeredocExpression)
	if !ok {
		vp.Fail("not a heredoc in " + src)
	}
	c, ok := h.Text().(*parser.ConcatenatedString)
	if !ok || len(c.Segments()) != 3 {
		vp.Fail("segments in " + src)
	}
	isString(c.Segments()[0], "x", src)
	x, ok := c.Segments()[1].(*parser.TextExpression)
	if !ok {
		vp.Fail("segments in " + src)
	}
	isString(x.Expr(), b, src)
	exp, _ := heredocText("  q"+t+"\n  z\n", 2, false, "", false)
	isString(c.Segments()[2], exp[0].s[1:], src)
}

// C06_two: several heredocs on one line.
func C06_two() {
	n := 2
	if vp.Thorough() {
		n = 3
	}
	a, b := vp.BytesOf("ab \n-|", vp.Choose(n+1)), vp.BytesOf("ab \n-|", vp.Choose(n+1))
	ma, mb := vp.Choose(4), vp.Choose(4)
	m := []string{"", " ", " ", ""}
	d := []string{"", "|", "|-", "-"}
	ta, tb := "  x"+a+"\n", "  y"+b+"\n"
	src := "[@(AA), @(BB:json), 7]\n" + ta + m[ma] + d[ma] + "AA\n" + tb + m[mb] + d[mb] + "BB\n$y = 8"
	els := afterHeredoc("p", src)
	if len(els) != 2 {
		vp.Fail("elements in " + src)
	}
	sa, _ := heredocText(ta, len(m[ma]), ma > 1, "", false)
	sb, _ := heredocText(tb, len(m[mb]), mb > 1, "", false)
	isHeredoc(els[0], "", sa, src)
	isHeredoc(els[1], "json", sb, src)
}

// C06_context: a heredoc within other constructs, and code that continues
// after it on the same line and on the next.
func C06_context() {
	c := string([]byte{vp.ByteOf("abc '\"#$\\{}[]()|,;=")})
	const v = `(heredoc {:text `
	t := "t" + c + "\nEND\n"
	text := "t" + c
	q := v + `"` + text + `\n"})`
	if c == `"` || c == `\` {
		q = v + `"t\` + c + `\n"})`
	}
	switch vp.Choose(8) {
	case 0:
		expectPN("p", "$x = @(END)\n"+t+"$y = 7", `(block (= (var "x") `+q+`) (= (var "y") 7))`)
	case 1:
		expectPN("p", "$x = [@(END),\n"+t+"7]", `(block (= (var "x") (array `+q+` 7)))`)
	case 2:
		expectPN("p", "$x = { 'a' => @(END), 'b' => 7\n"+t+"}", `(block (= (var "x") (hash (=> "a" `+q+`) (=> "b" 7))))`)
	case 3:
		expectPN("p", "f(@(END), 7) # c\n"+t+"f(7)", `(block (invoke {:functor (qn "f") :args [`+q+` 7]}) (invoke {:functor (qn "f") :args [7]}))`)
	case 4:
		expectPN("p", "if $x { $y = @(END) } else { 7 }\n"+t+"7", `(block (if {:test (var "x") :then [(= (var "y") `+q+`)] :else [7]}) 7)`)
	case 5:
		expectPN("p", "$x = @(END) + 7 /* c */\n"+t+"+ 8", `(block (= (var "x") (+ (+ `+q+` 7) 8)))`)
	case 6:
		expectPN("p", "notice @(END)\n"+t+"7", `(block (invoke {:functor (qn "notice") :args [`+q+`]}) 7)`)
	default:
		expectPN("e", "a<%= @(END)\n"+t+"%>b", `(lambda {:body [(epp (render-s "a") (render `+q+`) (render-s "b"))]})`)
	}
}

// C06_unterminated: a heredoc without an end is never accepted.
func C06_unterminated() {
	n := lenFor(5, 7)
	s := vp.BytesOf("END |-\nx", n)
	vp.Assume(!hasEnd(s, "END"))
	rejected("p", "[@(END), 7]\n"+s)
}

// C06_declaration: malformed declarations are never accepted.
func C06_declaration() {
	n := 5
	if vp.Thorough() {
		n = 7
	}
	s := vp.BytesOf(`E":/n`, vp.Choose(n+1))
	// independent grammar: tag [:syntax] [/flags]
	i := 0
	ok := true
	tag := ""
	if at(s, 0) == '"' {
		i = 1
		for at(s, i) == 'E' || at(s, i) == ':' || at(s, i) == '/' || at(s, i) == 'n' {
			i++
		}
		ok = at(s, i) == '"'
		tag = s[1:i]
		i++
	} else {
		for at(s, i) == 'E' || at(s, i) == 'n' {
			i++
		}
		tag = s[:i]
	}
	if i > len(s) {
		ok = false
	}
	syntax, flags := "", ""
	if ok && at(s, i) == ':' {
		st := i + 1
		for i++; at(s, i) == 'E' || at(s, i) == 'n'; i++ {
		}
		syntax = s[st:i]
	}
	if ok && at(s, i) == '/' {
		st := i + 1
		for i++; at(s, i) == 'n'; i++ {
		}
		flags = s[st:i]
	}
	ok = ok && i == len(s) && tag != ""
	src := "[@(" + s + `), 7]` + "\nx\\n\n" + tag + "\n$y = 8"
	if !ok {
		vp.Cover("malformed")
		rejected("p", src)
		return
	}
	segs, _ := heredocText("x\\n\n", 0, false, flags, false)
	isHeredoc(afterHeredoc("p", src)[0], syntax, segs, src)
}

// C06_beside: what is beside a heredoc on its line, and the heredoc, are unaffected by each other.
func C06_beside() {
	s := vp.Bytes(lenFor(2, 4))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80 && s[i] != '\n')
	}
	form := vp.Choose(11)
	x := []string{"'" + s + "'", "\"" + s + "\"", "/\\/" + s + "/", "`" + s + "`", "$a in /" + s + "/, 7 / 2 /*'*/",
		"$a / $b", "/b#'/, 7", "'a' /*" + s + "*/", "7 # " + s + "\n", "-$a[7] % 'x'", "true / $in / 2, 3 /* \" / */, '/*'"}[form]
	if form < 5 {
		// values that are valid by themselves
		q := byte('/')
		if form != 4 {
			q = x[0]
		}
		vp.Assume(form != 4 || s == "" || s[0] != '*')
		for i := 0; i < len(s); i++ {
			vp.Assume(s[i] != q && (s[i] != '$' || form != 1))
			if s[i] == '\\' && form != 3 {
				vp.Assume(i+1 < len(s) && s[i+1] != 'u' && s[i+1] != 'x')
				i++
			}
		}
	}
	if form == 7 {
		for i := 0; i < len(s); i++ {
			vp.Assume(s[i] != '*')
		}
	}
	want := mustPN("b", "[1, "+x+"]")
	if form != 8 {
		x += "]\nt\nEND\n$y = 7"
	} else {
		x += "t\nEND\n]\n$y = 7"
	}
	const v = "(block (array "
	vp.Assert(strings.HasPrefix(want, v+"1 "), "tree is "+want)
	expectPN("b", "[@(END), "+x, v+"(heredoc {:text \"t\\n\"}) "+want[len(v)+2:len(want)-1]+" (= (var \"y\") 7))")
}

// C06_tags: a tag is any text without a line break, and only all of it ends the heredoc.
func C06_tags() {
	pieces := []string{"E", "\u00e9", "\u4e16", ".", " ", "-", "|", "'"}
	tag := pieces[vp.Choose(4)]
	k := vp.Choose(3)
	for i := 0; i < k; i++ {
		tag += pieces[vp.Choose(len(pieces))]
	}
	vp.Assume(tag[len(tag)-1] != ' ')
	t := vp.BytesOf("E.\xc3\xa9\xa8 \n", lenFor(2, 4))
	vp.Assume(utf8.ValidString(t))
	text := t + "\n"
	if vp.Bool() {
		// a part of the tag
		n := vp.Choose(len(tag))
		vp.Assume(utf8.RuneStart(tag[n]))
		text = tag[:n] + "\n" + tag[n:] + text
	}
	vp.Assume(!hasEnd(text, tag))
	decl, syntax := tag, ""
	quoted := vp.Bool()
	if quoted {
		decl = "\"" + tag + "\""
	}
	if vp.Bool() {
		decl, syntax = decl+":x", "x"
	}
	segs, _ := heredocText(text, 0, false, "", quoted)
	src := "[@(" + decl + "), 7]\n" + text + "| " + tag + "\n$y = 8"
	isHeredoc(afterHeredoc("p", src)[0], syntax, segs, src)
}

// C06_nextline: the line after a heredoc continues the code as the line after any value does.
func C06_nextline() {
	head := []string{"@", "$x = @", "f(@)", "f @, $a", "$x = [@, f]", "$x = @ + f", "$x = @[7]", "@.f", "notice @, $a.f", "if @ { f }",
		"$x = { 'a' => @, 'b' => f }", "f(@) |$a| { f }", "$x = @ ? { 'a' => f }", "[@,", "$x = @ / 2", "@ / f / 2"}[vp.Choose(16)]
	gap := []string{"", " ", "\t# (c'\r\n", "\n/* ( */"}[lenFor(1, 3)]
	next := fill([]string{"(7)", "[7]", "[7].f", "|$q| { 7 }", "-7", "- 7", "* 7", "+ 7", ".f(7)", "'q'", "$q", "bq", "Bq[7]", "/q/", "in $q", "? { default => 7 }",
		"{ 'q' => 7 }", "and $q", "(7) - 7", "%q", "@bq { 'q': }", "]", "(7)]", "7", "/ 7", "/ $q / 7"}[vp.Choose(26)])
	const mark = `"HHH"`
	at := strings.IndexByte(head, '@')
	end := []string{"END", "| END\r", "- END"}[lenFor(1, 2)]
	src := head[:at] + "@(END)" + head[at+1:] + "\nt\n" + end + "\n" + gap + next
	want, err := ParseMode("p", head[:at]+mark+head[at+1:]+"\n"+gap+next)
	got, err2 := ParseMode("p", src)
	if (err == nil) != (err2 == nil) {
		vp.Fail("accepted is not as for a string in " + src)
	}
	if err != nil {
		return
	}
	vp.Cover("accepted")
	text := `(heredoc {:text "t\n"})`
	if end[0] == '-' {
		text = `(heredoc {:text "t"})`
	}
	w := want.ToPN().String()
	k := strings.Index(w, mark)
	vp.Assert(k >= 0, "harness")
	w = w[:k] + text + w[k+len(mark):]
	g := got.ToPN().String()
	vp.Assert(g == w, "source "+src+" gives "+g+" instead of "+w)
}
