package h

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// tk is a token: its name, and where it starts and ends
type tk struct {
	name    string
	at, end int
}

// lexerWords are the words that the lexer knows (without plan, which is a
// name unless tasks are enabled)
var lexerWords = strings.Fields("and application attr case class consumes default define else elsif function if in inherits node or private produces site type undef unless")

// opAt returns the longest operator at i
func opAt(s string, i int) string {
	switch s[i] {
	case '{':
		return "{"
	case '}':
		return "}"
	case '[':
		return "["
	case ']':
		return "]"
	case '(':
		return "("
	case ')':
		return ")"
	case ',':
		return ","
	case ';':
		return ";"
	case '.':
		return "."
	case '?':
		return "?"
	case ':':
		return ":"
	case '*':
		return "*"
	case '%':
		return "%"
	case '=':
		switch at(s, i+1) {
		case '=':
			return "=="
		case '~':
			return "=~"
		case '>':
			return "=>"
		}
		return "="
	case '-':
		switch at(s, i+1) {
		case '=':
			return "-="
		case '>':
			return "->"
		}
		return "-"
	case '+':
		switch at(s, i+1) {
		case '=':
			return "+="
		case '>':
			return "+>"
		}
		return "+"
	case '!':
		switch at(s, i+1) {
		case '=':
			return "!="
		case '~':
			return "!~"
		}
		return "!"
	case '>':
		switch at(s, i+1) {
		case '=':
			return ">="
		case '>':
			return ">>"
		}
		return ">"
	case '~':
		if at(s, i+1) == '>' {
			return "~>"
		}
	case '@':
		if at(s, i+1) == '@' {
			return "@@"
		}
		return "@"
	case '<':
		switch at(s, i+1) {
		case '=':
			return "<="
		case '~':
			return "<~"
		case '-':
			return "<-"
		case '|':
			return "<|"
		case '<':
			if at(s, i+2) == '|' {
				return "<<|"
			}
			return "<<"
		}
		return "<"
	case '|':
		if at(s, i+1) != '>' {
			return "|"
		}
		if at(s, i+2) == '>' {
			return "|>>"
		}
		return "|>"
	}
	return ""
}

// wordToken returns the name of the token of a word
func wordToken(w string) string {
	for _, x := range lexerWords {
		if w == x {
			return x
		}
	}
	if w == "true" || w == "false" {
		return "boolean literal"
	}
	return "identifier"
}

// lineAndPos returns the line and the position of an offset
func lineAndPos(s string, off int) (line, pos int) {
	l := strings.Split(s[:off], "\n")
	return len(l), utf8.RuneCountInString(l[len(l)-1]) + 1
}

// space finds the end of the white space and comments at i. It is negative
// when a comment does not end.
func space(s string, i int) int {
	for i < len(s) {
		switch {
		case s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n':
			i++
		case s[i] == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case s[i] == '/' && at(s, i+1) == '*':
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return -1
			}
			i += e + 4
		default:
			return i
		}
	}
	return i
}

// afterOperand tells if a slash after the token divides
func afterOperand(name string) bool {
	switch name {
	case ")", "]", "type name", "identifier", "boolean literal", "integer literal", "float literal", "string literal", "regexp", "variable":
		return true
	}
	return false
}

// quotedEnd finds the end of a text with a delimiter at i. It is 0 when the
// text does not end, and negative when an escape in it is malformed.
func quotedEnd(s string, i int) int {
	q := s[i]
	for i++; i < len(s); i++ {
		switch s[i] {
		case q:
			return i + 1
		case '\\':
			i++
			if q == '"' && at(s, i) == 'u' {
				_, e := unicodeEscape(s, i+1)
				if e < 0 {
					return -1
				}
				i = e - 1
			}
		}
	}
	return 0
}

// scan splits a text into tokens. The last one is EOF, has no name when the
// text is malformed at that place, and is ? when it is not known.
func scan(s string) (ts []tk) {
	if !utf8.ValidString(s) || hasByte(s, 0) {
		return []tk{{"?", 0, 0}}
	}
	prev := ""
	for i := 0; ; {
		b := i
		i = space(s, i)
		if i < 0 {
			return append(ts, tk{"", b, b})
		}
		if i == len(s) {
			return append(ts, tk{"EOF", i, i})
		}
		c := s[i]
		name, end := "", -1
		switch {
		case c == 0:
		case letter(c) || c == ':' && at(s, i+1) == ':':
			k, n := word(s[i:])
			if n > 0 {
				end = i + n
				switch k {
				case 't':
					name = "type name"
				case 's':
					name = "string literal"
				default:
					name = wordToken(s[i:end])
				}
			}
		case digit(c):
			n := number(s, i)
			end = n.end
			name = "integer literal"
			if n.radix == 0 {
				name = "float literal"
			}
			if end > 0 && at(s, end) >= 0x80 {
				if r, _ := utf8.DecodeRuneInString(s[end:]); unicode.IsLetter(r) {
					end = -1
				}
			}
		case c == '\'' || c == '"':
			name = "string literal"
			end = quotedEnd(s, i)
			if end == 0 {
				end = -1
			}
		case c == '$':
			name = "variable"
			k := i + 1
			if at(s, k) == ':' {
				if at(s, k+1) != ':' {
					break
				}
				k += 2
			}
			if r, _ := utf8.DecodeRuneInString(s[k:]); lower(at(s, k)) || digit(at(s, k)) && k == i+1 {
				end = varName(s, i+1)
			} else if k > len(s)-1 || !unicode.IsLetter(r) && !digit(at(s, k)) {
				end = k
			}
		case c == '/':
			name, end = "/", i+1
			if !afterOperand(prev) {
				if e := quotedEnd(s, i); e > 0 {
					name, end = "regexp", e
				}
			}
		case c == '@' && at(s, i+1) == '(':
			return append(ts, tk{"?", i, i})
		default:
			if name = opAt(s, i); name != "" {
				end = i + len(name)
			}
		}
		if end < 0 {
			return append(ts, tk{"", i, i})
		}
		ts = append(ts, tk{name, i, end})
		prev = name
		i = end
	}
}

// caught calls f and returns the error it panics with
func caught(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			err = e
		}
	}()
	f()
	return nil
}

// lexTo returns a lexer of the text that has read n tokens.
func lexTo(s string, n int) (l parser.Lexer, err error) {
	l = parser.NewSimpleLexer("file", s)
	for i := 0; i < n && err == nil; i++ {
		err = caught(func() { l.NextToken() })
	}
	return l, err
}

// firstOnLine tells if nothing but comments and space precedes a place on its
// line. A comment in between may extend over several lines.
func firstOnLine(s string, after, i int) bool {
	for k := after; k < i; k++ {
		switch s[k] {
		case '\n':
			return true
		case '#':
			for k < i && s[k] != '\n' {
				k++
			}
			return true
		case '/':
			k += 2
			for k < i && !(s[k] == '*' && s[k+1] == '/') {
				k++
			}
			k++
		}
	}
	return after == 0
}

// kindOf returns the kind of a token that is read in several ways: a text
// that spells it, and the index of the token in it
func kindOf(s string, ts []tk, n int) (text string, index int) {
	t, prev := ts[n], tk{}
	if n > 0 {
		prev = ts[n-1]
	}
	switch t.name {
	case "[":
		if t.at == 0 || prev.end < t.at {
			return "[", 0
		}
		return "a[", 1
	case "(":
		if firstOnLine(s, prev.end, t.at) {
			return "(", 0
		}
		return "a(", 1
	case "{":
		if prev.name == "?" {
			return "?{", 1
		}
		return "{", 0
	case "|":
		opens := true
		for k := 0; k <= n; k++ {
			if ts[k].name != "|" {
				continue
			}
			next := at(s, ts[k+1].at)
			opens = next != '{' && next != '>' && !(k > 0 && opens && ts[k-1].name == "|")
		}
		if opens {
			return "|$a", 0
		}
		return "|{", 0
	}
	return "", 0
}

// checkTokens asserts that the tokens of the text, starting with the n'th, are
// the ones expected
func checkTokens(s string, ts []tk, n int) {
	l, err := lexTo(s, n)
	m, _ := lexTo(s, n)
	for ; err == nil && n < len(ts); n++ {
		t := ts[n]
		if t.name == "?" || t.name == "|" && ts[n+1].name == "" {
			return // the lexer looks at what follows the bar
		}
		err = caught(func() { l.NextToken() })
		if t.name == "" {
			if err == nil {
				vp.Fail("malformed text is read: " + s)
			}
			vp.Cover("malformed")
			checkErr(s, "file", err)
			return
		}
		if err != nil {
			break
		}
		vp.Assert(parser.IsKeywordToken(l.CurrentToken()) == member(t.name, lexerWords), "wrong kind of "+t.name+" in "+s)
		if text, k := kindOf(s, ts, n); text != "" {
			o, _ := lexTo(text, k+1)
			if o.CurrentToken() != l.CurrentToken() {
				vp.Fail("not the " + t.name + " of " + text + " in " + s)
			}
		}
		if t.name == "EOF" {
			vp.Cover("end")
			tok := l.CurrentToken()
			vp.Assert(l.NextToken() == tok && l.CurrentToken() == tok, "the end does not repeat in "+s)
		}
		if n > 0 {
			m.SetPos(ts[n-1].end)
		}
		if m.NextToken() != l.CurrentToken() {
			vp.Fail("not the same token at its position: " + t.name + " in " + s)
		}
		e := caught(m.SyntaxError)
		if e == nil {
			vp.Fail("no syntax error")
		}
		r, ok := e.(issue.Reported)
		if !ok {
			vp.Fail("no issue: " + e.Error())
		}
		line, pos := lineAndPos(s, t.at)
		if r.Argument("token") != t.name || r.Location().Line() != line || r.Location().Pos() != pos || r.Location().File() != "file" {
			vp.Fail("wrong token: " + e.Error() + " instead of " + t.name + " in " + s)
		}
	}
	if err != nil {
		vp.Fail("refused: " + err.Error() + " in " + s)
	}
}

// C26_bytes: the tokens of arbitrary texts.
func C26_bytes() {
	s := vp.Bytes(lenFor(2, 3))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] < 0x80)
	}
	ts := scan(s)
	checkTokens(s, ts, 0)
}

// C26_utf8: the tokens of texts with bytes that are no ASCII characters.
func C26_utf8() {
	s := []string{"", "a", "1", "0", "$", "'", "#", "::"}[vp.Choose(8)]
	n := len(s)
	s += vp.Bytes(lenFor(2, 3))
	vp.Assume(n < len(s) && s[n] >= 0x80)
	ts := scan(s)
	checkTokens(s, ts, 0)
}

// C26_operators: the tokens of arbitrary texts of operators.
func C26_operators() {
	s := vp.BytesOf("<>|=!~-+@%*/:?.a ", lenFor(3, 4))
	ts := scan(s)
	checkTokens(s, ts, 0)
}

// C26_words: the tokens of arbitrary texts of words, numbers, variables,
// strings, and comments.
func C26_words() {
	s := vp.BytesOf("afG_08:-.$xe'\"\\#/*\n ", lenFor(3, 4))
	ts := scan(s)
	checkTokens(s, ts, 0)
}

// C26_templates: the tokens of every construct.
func C26_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "e" || t.mode == "b" {
		return
	}
	ts := scan(t.src)
	checkTokens(t.src, ts, 0)
}

// tokenTexts contain every kind of token
var tokenTexts = []string{
	"a |>> <<| == =~ => -= -> += +> != !~ >= >> ~> @@ <= << <| <- <~ |> = { } ] ) , ; . ? : - + * % ! > @ < $ $a $0",
	"::a::b ::A a::b-c 'b' \"c\" 1 1.5e3 0xa 012 /b/ A::B / # c\n",
	"true false [a /* b */ ( and\n/b/ [1] (\n[1] (1) / 2 $a - 1 if else -> @a |$a|",
	"and application attr case class consumes default define else elsif function if in inherits node or private produces site type undef unless plan a",
}

// C26_insert: the tokens next to an arbitrary character.
func C26_insert() {
	var t string
	if vp.Thorough() && vp.Bool() {
		u := &tmpls[vp.Choose(len(tmpls))]
		if u.mode == "e" || u.mode == "b" {
			return
		}
		t = u.src
	} else {
		t = tokenTexts[vp.Choose(len(tokenTexts))]
	}
	at := vp.Choose(len(t) + 1)
	s := t[:at] + vp.Bytes(1) + t[at:]
	ts := scan(s)
	n := len(ts) - 1
	for n > 0 && ts[n-1].end >= at {
		n--
	}
	checkTokens(s, ts, n)
}

// pairTexts are the tokens by kind
var pairTexts = []string{
	"a", "A", "a::b-c", "b-c::d", "::a", "::A::B", "$a", "$a::b", "$7", "$", "'b'", "\"c\"", "1", "0", "1.5", "1e3", "0x1f", "017", "/b/", "/", "true", "default", "undef", "if", "and", "or", "in", "case", "unless", "else", "node", "class", "type", "plan",
	"==", "=~", "=>", "=", "-=", "->", "-", "+=", "+>", "+", "!=", "!~", "!", ">=", ">>", ">", "~>", "@@", "@", "<=", "<<|", "<<", "<|", "<-", "<~", "<", "|>>", "|>", "|", "{", "}", "[", "]", "(", ")", ",", ";", ".", "?", ":", "*", "%",
}

// C26_pairs: a token after each other token, or after each of those at the
// start of a line and in a list of parameters, and what separates them.
func C26_pairs() {
	a := pairTexts[vp.Choose(len(pairTexts))]
	b := pairTexts[vp.Choose(len(pairTexts))]
	sep := []string{"", " ", "\n", " # c\n\t", "/* c\n */ "}[vp.Choose(5)]
	if a == "1e3" && b == "017" && sep == "" {
		return // out of range
	}
	s := a + sep + b
	if k := vp.Choose(3); k > 0 {
		s = []string{"a |", "(\n"}[k-1] + s
		if !vp.Thorough() && sep == " " {
			return
		}
		if vp.Bool() {
			s += "\n {"
		} else if !vp.Thorough() {
			return
		}
	}
	ts := scan(s)
	n := len(ts) - 2
	if n < 0 {
		n = 0
	}
	checkTokens(s, ts, n)
}

// C26_grammar: the tokens of combinations of constructs.
func C26_grammar() {
	g := someGram(1, 2)
	src, _ := g.source()
	if g.mode == "e" {
		return
	}
	ts := scan(src)
	checkTokens(src, ts, 0)
}

// C26_assert: a token that is not the expected one is reported, together
// with that one.
func C26_assert() {
	all := "a |>> <<| == =~ => -= -> += +> != !~ >= >> ~> @@ <= << <| <- <~ |> = { } ] ) , ; . ? : - + * % ! > @ < $a 'b' 1 1.5 true C and if"
	ts := scan(all)
	k := vp.Choose(len(ts))
	e, err := lexTo(all, k+1)
	if err != nil {
		vp.Fail(err.Error())
	}
	s := "$x = [1, 'a'] -> B { a:\n\u00e5" // malformed at its end
	if vp.Bool() {
		s = "if $x =~ /a/ { f(1.5) |$y| { default } }\n"
	}
	us := scan(s)
	n := vp.Choose(len(us) - 1)
	l, err := lexTo(s, n+1)
	if err != nil {
		vp.Fail(err.Error())
	}
	err = caught(func() { l.AssertToken(e.CurrentToken()) })
	if ts[k].name == us[n].name {
		if err != nil {
			vp.Fail("refused: " + err.Error() + " in " + s)
		}
		return
	}
	if err == nil {
		vp.Fail(ts[k].name + " is taken for " + us[n].name)
	}
	checkErr(s, "file", err)
	r := err.(issue.Reported)
	if r.Argument("expected") != ts[k].name || r.Argument("actual") != us[n].name || r.Location().Line() != lineOf(s, us[n].at) || r.Location().Pos() != posOf(s, us[n].at) {
		vp.Fail("wrong report: " + err.Error() + " in " + s)
	}
}

// C26_again: what other lexers read has no effect on the tokens of a text.
func C26_again() {
	t := &tmpls[vp.Choose(len(tmpls))]
	a := parser.NewSimpleLexer("file", t.src)
	other := "f(@(X)) {\nx\n| X\n $a ? {"
	b := parser.NewSimpleLexer("file", other)
	var toks []int
	var err error
	for err == nil && (len(toks) == 0 || toks[len(toks)-1] != 0) {
		vp.Assert(len(toks) <= len(t.src), "does not end: "+t.src)
		err = caught(func() { a.NextToken() })
		toks = append(toks, a.CurrentToken())
	}
	// again, with another lexer in between
	a = parser.NewSimpleLexer("file", t.src)
	n := vp.Choose(3)
	for i, tok := range toks {
		var nt int
		e := caught(func() { nt = a.NextToken() })
		if i%3 == n && caught(func() { b.NextToken() }) != nil {
			b = parser.NewSimpleLexer("file", other)
		}
		if e != nil || err != nil && i == len(toks)-1 {
			vp.Assert(e != nil && err != nil && i == len(toks)-1 && e.Error() == err.Error(), "not the same error in "+t.src)
			return
		}
		vp.Assert(nt == tok && a.CurrentToken() == tok, "not the same token in "+t.src)
	}
}
