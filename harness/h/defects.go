package h

import (
	"strings"

	"github.com/lyraproj/issue/issue"

	"vpharness/vp"
)

// A defect is the mode, a source in which ¶ marks where the defect must be
// reported (two marks: somewhere from the first to the second), and words
// that the message must contain.
type defect struct {
	mode, src, words string
}

// badValues may be wherever a value may be.
var badValues = []defect{
	{"p", `"¶\u{}"`, "unicode escape"}, {"p", `"¶\u{1234567}"`, "unicode escape"}, {"p", `"¶\u{110000}"`, "unicode escape"}, {"p", `"¶\u{d800}"`, "unicode escape"}, {"p", `"¶\udfff"`, "unicode escape"},
	{"p", `"¶\u12"`, "unicode escape"}, {"p", `"a${bq}¶\u12"`, "unicode escape"}, {"p", "\"\u00e5\\n¶\\u12x\"", "unicode escape"}, {"p", `"¶\u{12"`, "unicode escape"},
	{"b", `"¶\xq"`, "hexadecimal escape"}, {"b", `"aq${b}¶\x7`, "hexadecimal escape"},
	{"p", `0x¶g`, "hexadecimal digit"}, {"p", `0x1¶g`, "hexadecimal digit"}, {"p", `0¶9`, "octal digit"}, {"p", `06¶8`, "octal digit"}, {"p", `01¶a`, "octal digit"}, {"p", `1¶a`, "digit"}, {"p", `1.¶a`, "digit"}, {"p", `1.¶ `, "digit"}, {"p", `1.5e¶a`, "digit"}, {"p", `1.5e¶ `, "digit"},
	{"p", `1.5e-¶ `, "digit"}, {"p", `1e¶a`, "digit"}, {"p", `1e+¶ `, "digit"}, {"p", `7.5¶a`, "digit"}, {"p", `0.7¶a`, "digit"}, {"p", `0.¶b`, "digit"},
	{"p", `¶9999999999999999999`, "out of range"}, {"p", `¶-¶9999999999999999999`, "out of range"}, {"p", `¶0x¶8000000000000000`, "out of range"}, {"p", `¶0¶1000000000000000000000`, "out of range"}, {"p", `¶7.5e400`, "out of range"}, {"p", `¶1e999`, "out of range"}, {"p", `¶$¶9999999999999999999`, "out of range"},
	{"p", `¶bq::`, "invalid name"}, {"p", `¶bq::1`, "invalid name"}, {"p", `¶::bq::C`, "invalid name"}, {"p", `¶b::C`, "invalid name"}, {"p", `¶::`, ":: not followed by name"}, {"p", `¶::7`, ":: not followed by name"},
	{"p", `¶Bq::c`, "invalid type name"}, {"p", `¶::Bq::7`, "invalid type name"}, {"p", `¶$bq::`, "invalid variable name"}, {"p", `¶$¶Bq`, "invalid variable name"}, {"p", `¶$b::Cq`, "invalid variable name"}, {"p", `¶$:b`, "invalid variable name"},
	{"p", `¶~`, "unexpected token;'~'"}, {"p", `¶^`, "unexpected token;'^'"}, {"p", `¶&`, "unexpected token;'&'"}, {"p", "¶\u00e5", "unexpected token;'\u00e5'"}, {"p", "¶\U0001f600", "unexpected token;'\U0001f600'"}, {"p", "¶`", "unexpected token;'`'"}, {"p", `¶\`, "unexpected token;'\\'"},
	{"p", "7 ¶~ 7", "unexpected token;'~'"}, {"p", "7 ¶^", "unexpected token;'^'"},
	{"p", "¶@()\n", "empty heredoc tag"}, {"p", "¶@(\"\")\n", "empty heredoc tag"}, {"p", "@(B/¶j)\n", "escape 'j'"}, {"p", "@(B/¶t¶j)\n", "escape 'j'"}, {"p", "@(B/t¶/n)\n", "more than one declaration of escape"}, {"p", "@(\"B\":c¶:d)\n", "more than one syntax"},
	{"p", "@(\"B\"¶c)\n", "more than one tag"}, {"p", "@(\"B\" ¶\"C\")\n", "more than one tag"}, {"p", "@(c¶\"B\")\n", "more than one tag"},
	{"p", `[7 ¶8]`, "',' or ']';integer"}, {"p", `[7, ¶}`, "unexpected token;'}'"}, {"p", `{7 ¶8¶}`, "'=>'"}, {"p", `{7 => 8 ¶9}`, "',' or '}';integer"}, {"p", `f(7 ¶bq)`, "',' or ')';identifier"}, {"p", `(7 ¶Bq)`, "')';type name"}, {"p", `$a[7 ¶$b]`, "',' or ']';variable"},
	{"p", `$a ? { 7 ¶}`, "'=>';'}'"}, {"p", `if 7 ¶8`, "'{';integer"}, {"p", `if 7 { } else ¶8`, "'{';integer"}, {"p", `unless 7 { } ¶elsif¶ 8 { }`, "elsif;unless"},
	{"p", `case 7 { 8 ¶}`, "',' or ':';'}'"}, {"p", `case 7 { 8: ¶9 }`, "'{';integer"}, {"p", `$x.f |¶b¶| { }`, "variable"}, {"p", `f() |$x ¶$y| { }`, "',' or '|';variable"}, {"p", `f() |$x| >> ¶7¶ { }`, "type name"},
	{"p", `"a${b ¶c}"`, "'}';identifier"},
}

// badStatements may be wherever a statement may be.
var badStatements = []defect{
	{"p", `class ¶7¶ { }`, "name of class"}, {"p", `class ¶'bq'¶ { }`, "quoted string"}, {"p", `class bq ¶7`, "'{';integer"}, {"p", `class bq(¶c¶) { }`, "variable"}, {"p", `class b($c ¶d) { }`, "',' or ')';identifier"}, {"p", `class b inherits ¶7¶ { }`, "name of class"},
	{"p", `define ¶7¶ { }`, "name of class"}, {"p", `define ¶'bq'¶ { }`, "quoted string"}, {"p", `function ¶7¶ { }`, "name;'function'"}, {"p", `function bq >> ¶7¶ { }`, "type name"}, {"p", `function b ¶=> { }`, "'{';'=>'"}, {"p", `node ¶[bq]¶ { }`, "hostname"}, {"p", `node bq inherits ¶{¶ }`, "hostname"},
	{"p", `site ¶bq { }`, "'{';identifier"}, {"p", `application ¶7¶ { }`, "name of class"}, {"p", `Bq produces ¶7¶ { }`, "name of class"}, {"p", `type Bq inherits¶ c¶ { }`, "type name;'inherits'"},
	{"p", `b { 'c': d => 7 ¶e => 8 }`, "'}';identifier"}, {"p", `b { 'cq': ¶'d'¶ => 7 }`, "attribute name"}, {"p", `b { 'c': dq ¶7¶ }`, "attribute operation"}, {"p", `b { 'c': dq => 7, ¶=>¶ 8 }`, "attribute name"}, {"p", `b { 'c': d => 7; ¶eq¶ }`, "title"}, {"p", `¶bq { c => 7 }`, "'b;without a title"},
	{"p", `B { c => 7 ¶d => 8 }`, "'}';identifier"}, {"p", `@bq ¶7`, "'{';integer"}, {"p", `@@bq ¶7`, "'{';integer"}, {"p", `A <| b ¶7 |>`, "'|>';integer"}, {"p", `A <| b ¶|>>`, "'|>';'|>>'"}, {"p", `A <<| bq ¶|>`, "'|>>';'|>'"}, {"p", `A <| |> { bq ¶}¶ `, "attribute operation"},
	{"p", `$a = class ¶7¶ { }`, "name of class"}, {"p", `¶elsif`, "unexpected token;'elsif'"}, {"p", `¶and 7`, "unexpected token;'and'"}, {"p", `7 ¶)`, "unexpected token;')'"}, {"p", `¶=> 7`, "unexpected token;'=>'"}, {"p", `7;¶; 8`, "unexpected token;';'"}, {"p", `notice 7, ¶)`, "unexpected token;')'"}, {"p", `7 + ¶=`, "unexpected token;'='"},
	{"p", `7 -> ¶]`, "unexpected token;']'"}, {"p", `! ¶]`, "unexpected token;']'"},
	{"t", `plan ¶7¶ { }`, "name;'plan'"}, {"t", `plan bq ¶7`, "'{';integer"}, {"t", `plan ¶'b'¶ { }`, "name;'plan'"},
	{"w", `workflow bq { parameters ¶}¶`, "'=>'"}, {"w", `workflow b { parameters => (¶7¶) } { }`, "variable"}, {"w", `workflow b { parameters => ($c = 7 ¶d) } { }`, "',' or ')';identifier"}, {"w", `workflow b { returns => (¶c¶) } { }`, "variable"}, {"w", `workflow b { } { ¶7¶ }`, "'action';'resource';'workflow'"}, {"w", `workflow b { } { action ¶}¶`, "action name"},
	{"w", `workflow b { } { resource ¶}¶`, "resource name"}, {"w", `workflow b { } { ¶foo¶ b { } }`, "'action';'resource';'workflow'"}, {"w", `action b { } { function ¶}¶`, "name;'function'"}, {"w", `resource b { } { cq ¶}¶`, "attribute operation"}, {"w", `resource b { } { ¶'c'¶ => 7 }`, "attribute name"}, {"w", `resource b { } { c => 7 ¶8 }`, "',' or '}';integer"},
	{"w", `resource b { } ¶foo(7)¶ |$b| { }`, "'each';'range';'times';'foo'"},
}

// badEnds are incomplete: they must be the last of a source.
var badEnds = []defect{
	{"p", `$a = ¶'bq`, "unterminated single quoted"}, {"p", `$a = ¶"bq`, "unterminated double quoted"}, {"p", `$a = ¶"bq${c}d`, "unterminated double quoted"}, {"p", "$a = ¶'\u00e5\\'", "unterminated single quoted"}, {"p", "$a = ¶\"\u00e5\n\\\"", "unterminated double quoted"}, {"b", "$a = ¶`bq", "unterminated backtick quoted"}, {"b", "$a = ¶`b\\", "unterminated backtick quoted"},
	{"p", `$a = "bq${c¶`, "'}'"}, {"p", `$a = [¶/bq`, "unexpected token;'/'"},
	{"p", `¶/* bq`, "unterminated;comment"}, {"p", "$a = 7 ¶/* \u00e5 *", "unterminated;comment"}, {"p", "[7, ¶/*/", "unterminated;comment"},
	{"p", `$a = ¶@(`, "unterminated @("}, {"p", `$a = ¶@(Bq`, "unterminated @("}, {"p", "$a = ¶@(\"Bq\n)", "unterminated @("}, {"p", `$a = ¶@(Bq)`, "unterminated heredoc"}, {"p", "$a = ¶@(Bq)\nx\n", "unterminated heredoc"}, {"p", "$a = ¶@(\"Bq\":x)\n\u00e5\nBq7\n Bq B", "unterminated heredoc"}, {"p", "$a = [1,\n ¶@(Bq), @(C)]\nx\nC\n", "unterminated heredoc"},
	{"p", "$a = [@(Bq), ¶@(C)]\nx\nBq\n", "unterminated heredoc"}, {"p", "$a = @(B/u)\n\u00e5¶\\u12q\nB", "unicode escape"}, {"p", "$a = @(\"B\"/u)\n${c} ¶\\u{12\nB", "unicode escape"}, {"p", "$a = @(\"B\"/u)\n  x\n  ¶\\u{}\n  | B", "unicode escape"}, {"p", "$a = @(\"B\")\n\u00e5 ¶${[c,\nB\n]}\nB", "interpolation"}, {"p", "$a = @(\"B\"/n)\n\u00e5 \\¶${f(c,\n  B\n)}\nB", "interpolation"}, {"p", "$a = @(\"B\")\n  x\n  ${c ¶d}\n  | B", "'}';identifier"},
	{"p", `[7¶`, "',' or ']'"}, {"p", `{7 => 8¶`, "',' or '}'"}, {"p", `f(7¶`, "',' or ')'"}, {"p", `(7¶`, "')'"}, {"p", `$a[7¶`, "',' or ']'"}, {"p", `if 7¶`, "'{'"}, {"p", `if 7 {¶`, "unexpected"}, {"p", `class¶`, "name of class"}, {"p", `class b(¶`, "variable"}, {"p", `$a = ¶`, "unexpected"}, {"p", `$a +¶`, "unexpected"},
	{"p", `b { 'c': d => 7¶`, "'}'"}, {"p", `b { 'c':¶`, "attribute name"}, {"p", `A <| b¶`, "'|>'"}, {"p", `A <<| b¶`, "'|>>'"}, {"p", `f() |¶`, "variable"}, {"p", `function¶`, "name;'function'"}, {"p", `node¶`, "hostname"},
	{"e", `¶<% $a`, "tag"}, {"e", `¶<%# bq`, "unbalanced epp comment"}, {"e", `¶<%= $a`, "tag"}, {"e", "\u00e5\n <%- if $x { %>\u00e5¶<%# c", "unbalanced epp comment"}, {"e", "x¶<%# %%>", "unbalanced epp comment"}, {"e", "<% if $x { %>\u00e5¶<% }", "tag"}, {"e", "\u00e5<%= ¶'bq %>", "unterminated single quoted"}, {"e", "<% $a %>\u00e5\n ¶<%= f(", "tag"},
	{"e", "<% ¶^ %>", "unexpected token;'^'"}, {"e", "\u00e5 <%= $a + ¶^ %>", "unexpected token;'^'"}, {"e", "<%- |¶a¶| %>", "variable"}, {"e", "<% ¶} %>", "unexpected token;'}'"},
}

// hostsOf are the surroundings of a statement.
func hostsOf(mode string) []string {
	x := []string{"^", "class zz { ^ }", "if $z { ^ }", "f() |$z| { ^ }", "$v = 7; ^ ", "case $z { default: { ^ } }", "include z; ^", "function zz() { ^ }"}
	if mode == "w" {
		x = append(x, "action zz { } { ^ }")
	}
	return x
}

// marks returns the source without marks, and the range they tell.
func marks(s string) (src string, from, to int) {
	const m = "\u00b6"
	from = strings.Index(s, m)
	s = s[:from] + s[from+len(m):]
	to = from
	if i := strings.Index(s, m); i >= 0 {
		to = i
		s = s[:i] + s[i+len(m):]
	}
	return s, from, to
}

var beforeDefect = []string{"", "/*\u00e5\u4e16*/ ", "$v = '\u00e5';\n", "# \u00e5\r\n\t"}

func checkDefect(d *defect, s string, words bool) {
	src, from, to := marks(s)
	err := parseErr(d.mode, src)
	if err == nil {
		vp.Fail("accepted " + src)
	}
	r, ok := err.(issue.Reported)
	if !ok {
		vp.Fail("no issue: " + err.Error())
	}
	if words {
		m := r.Error()
		if i := strings.LastIndex(m, "(file: "); i >= 0 {
			m = m[:i]
		}
		for _, w := range strings.Split(d.words, ";") {
			if !strings.Contains(m, w) {
				vp.Fail("does not name what is at fault (" + d.words + "): " + err.Error() + " in " + src)
			}
		}
		return
	}
	l := r.Location()
	for i := from; i <= to; i++ {
		if l.Line() == lineOf(src, i) && l.Pos() == posOf(src, i) {
			return
		}
	}
	vp.Fail("wrong location: " + err.Error() + " in " + src)
}

func defects(words bool) {
	pre := beforeDefect[vp.Choose(len(beforeDefect))]
	if words {
		vp.Assume(pre == "")
	}
	switch vp.Choose(4) {
	case 0:
		d := &badValues[vp.Choose(len(badValues))]
		checkDefect(d, pre+"$z = "+valueHolesAround(fill(d.src))+"\n$w = 7", words)
	case 3: // in a tag of a template
		all := append(append([]defect{}, badValues...), badStatements...)
		d := all[vp.Choose(len(all))]
		vp.Assume(d.mode == "p")
		d.mode = "e"
		checkDefect(&d, []string{"", "\u00e5\n", "<% $z; -%> \n\u00e5", "<%# \u00e5\n %>"}[vp.Choose(4)]+"<% "+fill(d.src)+" %>\u00e5", words)
	case 1:
		d := &badStatements[vp.Choose(len(badStatements))]
		h := hostsOf(d.mode)
		x := strings.Replace(h[vp.Choose(len(h))], "^", fill(d.src), 1)
		if !words {
			x = strings.Replace(h[vp.Choose(len(h))], "^", x, 1)
		}
		checkDefect(d, pre+x+"\n$w = 7", words)
	case 2:
		d := &badEnds[vp.Choose(len(badEnds))]
		if d.mode == "e" {
			pre = []string{"", "\u00e5\n", "<% $z %> ", "<%# \u00e5\n %>"}[vp.Choose(4)]
			vp.Assume(pre == "" || !strings.Contains(d.src, "|"))
		}
		checkDefect(d, pre+fill(d.src), words)
	}
}

// C11_defects: errors of all kinds are reported at the place of the defect.
func C11_defects() { defects(false) }

// C27_defects: errors of all kinds name the defect.
func C27_defects() { defects(true) }

// C11_unterminated: what is not terminated is reported where it starts, whatever it contains.
func C11_unterminated() {
	type opener struct{ mode, open, not string }
	o := []opener{{"p", "/*", ""}, {"p", "'", "'"}, {"p", "\"", "\"$"}, {"b", "`", "`"}, {"e", "<%#", "%"}, {"p", "@(", "):/\""}, {"p", "@(B)\n", "B"}, {"p", "@(\"B\"/n)\n", "B$"}, {"p", "@(B:x/L)\n", "B"}}[vp.Choose(9)]
	pre := []string{"", "$v = '\u00e5';\n ", "/* \u00e5 */\t", "$v = [7, "}[vp.Choose(4)]
	if o.mode == "e" {
		pre = []string{"", "\u00e5\n ", "<%# \u00e5\n %>", "<%= 7 %>"}[vp.Choose(4)]
	}
	s := vp.Bytes(lenFor(4, 5))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != 0 && s[i] < 0x80)
		for j := 0; j < len(o.not); j++ {
			if s[i] == o.not[j] && (i == 0 || s[i-1] != '\\' || o.open != "'") {
				vp.Assume(false)
			}
		}
		vp.Assume(o.open != "/*" || s[i] != '/' || i == 0 || s[i-1] != '*')
		vp.Assume(o.open != "\"" || s[i] != '\\')
		vp.Assume(o.open != "'" || i == 0 || s[i] != '\\' || s[i-1] != '\\')
	}
	end := []string{"", "\u00e5", "\n\u00e5\n"}[vp.Choose(3)]
	vp.Assume(o.open != "@(" || !strings.Contains(s, "\r"))
	wantErrAt(o.mode, pre+o.open+s+end, len(pre))
}
