package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// expr parses a single expression.
func expr(mode, src string) parser.Expression {
	e, err := parser.CreateParser(optionsOf(mode)...).Parse("", src, true)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	return e
}

// pair is an entry of an expected hash.
type pair struct{ k, v interface{} }

// eqLiteral compares a converted value with the expected one, where a hash is
// a list of pairs.
func eqLiteral(a, b interface{}) bool {
	switch b := b.(type) {
	case []interface{}:
		a, ok := a.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !eqLiteral(a[i], b[i]) {
				return false
			}
		}
		return true
	case []pair:
		a, ok := a.(map[interface{}]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for _, p := range b {
			v, ok := a[p.k]
			if !ok || !eqLiteral(v, p.v) {
				return false
			}
		}
		return true
	case string:
		a, ok := a.(string)
		return ok && a == b
	case int64:
		a, ok := a.(int64)
		return ok && a == b
	case float64:
		a, ok := a.(float64)
		return ok && a == b
	case bool:
		a, ok := a.(bool)
		return ok && a == b
	case parser.Default:
		a, ok := a.(parser.Default)
		return ok && a == b
	}
	return a == nil && b == nil
}

func isLiteral(e parser.Expression, want interface{}, src string) {
	var v interface{}
	var ok bool
	if try(func() { v, ok = literal.ToLiteral(e) }) {
		vp.Fail("conversion of " + src + " panics")
	}
	vp.Assert(ok, "literal is refused: "+src)
	vp.Assert(eqLiteral(v, want), "wrong value of "+src)
}

func notLiteral(e parser.Expression, src string) {
	var v interface{}
	var ok bool
	if try(func() { v, ok = literal.ToLiteral(e) }) {
		vp.Fail("conversion of " + src + " panics")
	}
	vp.Assert(!ok, "not a literal, but converted: "+src)
	vp.Assert(v == nil, "value of what was refused: "+src)
}

// scalar returns an arbitrary literal that is no collection.
func scalar() (src string, val interface{}) {
	switch vp.Choose(19) {
	case 0:
		c := vp.Bytes(1)
		vp.Assume(c[0] < 0x80 && c[0] > 0 && c[0] != '\'' && c[0] != '\\')
		return "'" + c + "'", c
	case 1:
		c := vp.Bytes(1)
		vp.Assume(c[0] < 0x80 && c[0] > 0 && c[0] != '"' && c[0] != '\\' && c[0] != '$')
		return "\"" + c + "b\"", c + "b"
	case 2:
		c := vp.ByteOf("0123456789")
		return "5" + string([]byte{c}), int64(50 + int(c) - '0')
	case 3:
		c := vp.ByteOf("abcdef")
		return "0x1" + string([]byte{c}), int64(26 + int(c) - 'a')
	case 4:
		c := vp.ByteOf("01234567")
		return "01" + string([]byte{c}), int64(8 + int(c) - '0')
	case 5:
		c := vp.ByteOf("123456789")
		return "-" + string([]byte{c}), -int64(int(c) - '0')
	case 6:
		return "3.5", 3.5
	case 7:
		return "-25e-1", -2.5
	case 8:
		return "true", true
	case 9:
		return "false", false
	case 10:
		return "undef", nil
	case 11:
		return "default", parser.DefaultInstance
	case 12:
		c := vp.BytesOf(nameTail, 1)
		return "/" + c + "/", c
	case 13:
		c := vp.BytesOf(nameTail, 1)
		return "n" + c, "n" + c
	case 14:
		c := vp.BytesOf(nameTail, 1)
		return "a::n" + c, "a::n" + c
	case 15:
		c := vp.BytesOf(nameTail, 1)
		return "A::N" + c, "A::N" + c
	case 16:
		return "''", ""
	case 17:
		return []string{"attr", "private"}[vp.Choose(2)], nil
	}
	return "9223372036854775807", int64(9223372036854775807)
}

// lit returns a literal of up to the given depth.
func lit(depth int) (src string, val interface{}) {
	n := 1
	if depth > 0 {
		n = 5
	}
	switch vp.Choose(n) {
	case 1:
		s, v := lit(depth - 1)
		return "[" + s + "]", []interface{}{v}
	case 2:
		s, v := lit(depth - 1)
		return "[0, " + s + ", [], ]", []interface{}{int64(0), v, []interface{}{}}
	case 3:
		s, v := lit(depth - 1)
		return "{ k => " + s + ", 1 => {}, }", []pair{{"k", v}, {int64(1), []pair{}}}
	case 4:
		s, v := lit(depth - 1)
		k, i := key()
		return "{ " + k + " => " + s + " }", []pair{{i, v}}
	}
	s, v := scalar()
	if s == "attr" || s == "private" {
		v = s
	}
	return s, v
}

// key returns a literal that is a key of a hash
func key() (src string, val interface{}) {
	switch vp.Choose(8) {
	case 0:
		c := vp.BytesOf(nameTail, 1)
		return "'" + c + "'", c
	case 1:
		c := vp.ByteOf("123456789")
		return string([]byte{c}), int64(int(c) - '0')
	case 2:
		return "true", true
	case 3:
		return "undef", nil
	case 4:
		return "default", parser.DefaultInstance
	case 5:
		return "2.5", 2.5
	case 6:
		return "type", "type"
	}
	c := vp.BytesOf(nameTail, 1)
	return "K" + c, "K" + c
}

// C19_literals: literals convert to their value.
func C19_literals() {
	src, val := lit(2)
	isLiteral(expr("p", src), val, src)
}

// C19_text: strings with arbitrary content.
func C19_text() {
	s := vp.Bytes(lenFor(2, 4))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] > 0 && s[i] < 0x80)
	}
	e, err := parser.CreateParser().Parse("", "'"+s+"'", true)
	if err == nil {
		v, end := single(s + "'")
		if end == len(s)+1 {
			isLiteral(e, v, s)
		}
	}
	e, err = parser.CreateParser().Parse("", "\""+s+"\"", true)
	if err == nil {
		g, end := double(s+"\"", false)
		if end == len(s)+1 {
			if len(g) == 0 {
				isLiteral(e, "", s)
			} else if len(g) == 1 && !g[0].v {
				isLiteral(e, g[0].s, s)
			} else {
				notLiteral(e, s)
			}
		}
	}
}

// C19_heredoc: the text of a heredoc.
func C19_heredoc() {
	s := vp.BytesOf(nameTail+" -|", lenFor(2, 3))
	isLiteral(expr("p", "@(EEEE)\nx"+s+"\nEEEE\n"), "x"+s+"\n", s)
	isLiteral(expr("p", "[@(EEEE:json), 1]\nx"+s+"\n| EEEE\n"), []interface{}{"x" + s + "\n", int64(1)}, s)
	isLiteral(expr("p", "@(\"EEEE\")\nx"+s+"\n-EEEE\n"), "x"+s, s)
	isLiteral(expr("p", "{ a => @(EEEE), b => 1 }\n x"+s+"$y\n |-EEEE\n"), []pair{{"a", "x" + s + "$y"}, {"b", int64(1)}}, s)
	notLiteral(expr("p", "@(\"EEEE\")\nx"+s+"$y\n-EEEE\n"), s)
	notLiteral(expr("p", "[@(\"EEEE\")]\nx${y}"+s+"\nEEEE\n"), s)
}

// nonLiterals are expressions that are no literals, with holes.
var nonLiterals = []string{"$aq", "$a::xq", "f(aq)", "f()", "(7)", "('q')", "!true", "!aq", "-$aq", "7 + 7", "aq + 1", "\"a${aq}\"", "\"$aq\"", "A[7]", "Aq[b]", "$a[aq]", "'q'[0]", "aq.bq", "7 == 7", "7 < 7", "true and true", "false or true", "a in b", "a =~ b", "a !~ /q/", "a -> b", "$aq = 7", "$aq += 7", "*[7]", "7 ? { aq => 7 }", "if aq { 7 }", "unless aq { 7 }", "case aq { 7: { 7 } }", "f() |$x| { aq }", "[7][0]", "7 << 7", "7 * 7", "a <| |>", "Aq <| |>", "Aq <<| |>>", "Aq { b => c }", "aq { 'b': c => d }", "@aq { 'b': }", "{ [7] => aq }", "{ {} => aq }", "{ [[aq]] => 7 }", "{ { aq => 7 } => 7 }",
	"class aq { }", "define aq { }", "function aq() { }", "node aq { }", "type Q = A", "aq { a: }", "notice(aq)", "\"${7}\"", "\"a${7}\""}

// C19_others: what is no literal is refused, wherever it is.
func C19_others() {
	s := fill(nonLiterals[vp.Choose(len(nonLiterals))])
	depth := 2
	top := true
	for i := 0; i < depth; i++ {
		p := []string{"^", "[^]", "[7, ^]", "[^, 7]", "{ k => ^ }", "{ ^ => 1 }", "{ k => 7, l => ^ }", "{ k => ^, l => 7 }", "@(E)"}[vp.Choose(9)]
		if p == "@(E)" {
			continue
		}
		top = top && p == "^"
		s = strings.Replace(p, "^", s, 1)
	}
	e, err := parser.CreateParser().Parse("", s, true)
	if err != nil {
		// some are statements
		vp.Assert(!top || s[0] == 'a', "rejected: "+err.Error()+" in "+s)
		return
	}
	notLiteral(e, s)
}

// literalTree tells if a tree consists of literals only.
func literalTree(e parser.Expression) bool {
	switch e := e.(type) {
	case *parser.LiteralBoolean, *parser.LiteralDefault, *parser.LiteralFloat, *parser.LiteralInteger, *parser.LiteralString, *parser.LiteralUndef, *parser.QualifiedName, *parser.QualifiedReference, *parser.RegexpExpression, *parser.ReservedWord:
		return true
	case *parser.LiteralList:
		for _, x := range e.Elements() {
			if !literalTree(x) {
				return false
			}
		}
		return true
	case *parser.LiteralHash:
		for _, x := range e.Entries() {
			k := x.(*parser.KeyedEntry)
			switch k.Key().(type) {
			case *parser.LiteralList, *parser.LiteralHash:
				return false
			}
			if !literalTree(k.Key()) || !literalTree(k.Value()) {
				return false
			}
		}
		return true
	case *parser.ConcatenatedString:
		if len(e.Segments()) == 1 {
			_, ok := e.Segments()[0].(*parser.LiteralString)
			return ok
		}
		return false
	case *parser.HeredocExpression:
		return literalTree(e.Text())
	}
	return false
}

// checkLiterals converts every node of a tree.
func checkLiterals(e parser.Expression, src string, pure bool) {
	for _, n := range nodesOf(e) {
		if _, ok := n.e.(*parser.Program); ok {
			continue
		}
		if _, ok := n.e.(*parser.RenderStringExpression); ok {
			continue
		}
		before := ""
		if pure {
			before = n.e.ToPN().String()
		}
		want := literalTree(n.e)
		var v interface{}
		var ok bool
		if try(func() { v, ok = literal.ToLiteral(n.e) }) {
			vp.Fail("conversion panics in " + src)
		}
		vp.Assert(ok == want, "wrong decision in "+src)
		if !ok {
			vp.Assert(v == nil, "value of what was refused")
		}
		vp.Assert(!pure || n.e.ToPN().String() == before, "conversion changes "+before)
	}
}

// C19_templates: every node of every construct.
func C19_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	src, _ := holes(t)
	e, err := ParseMode(t.mode, src)
	if err == nil {
		checkLiterals(e, src, true)
	}
}

// C19_bytes: every node of arbitrary texts.
func C19_bytes() {
	src := vp.Bytes(lenFor(3, 4))
	e, err := parser.CreateParser().Parse("", src, true)
	if err == nil {
		checkLiterals(e, src, false)
	}
}

// C19_grammar: every node of combinations of constructs.
func C19_grammar() {
	e, src, _ := someGram(2, 3).tree()
	checkLiterals(e, src, true)
}

// C19_keys: a hash with several different keys.
func C19_keys() {
	keys := []struct {
		src string
		val interface{}
	}{{"1", int64(1)}, {"'1'", "1"}, {"true", true}, {"'true'", "true"}, {"undef", nil}, {"''", ""}, {"default", parser.DefaultInstance}, {"'default'", "default"}, {"1.0", 1.0}, {"'1.0'", "1.0"}, {"a", "a"}, {"B", "B"}, {"0x2", int64(2)}, {"-1", int64(-1)}, {"/c/", "c"}, {"false", false}}
	n := 1 + vp.Choose(3)
	s := ""
	var ps []pair
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := vp.Choose(len(keys))
		vp.Assume(!used[k])
		used[k] = true
		s += keys[k].src + " => " + itoa(i) + ", "
		ps = append(ps, pair{keys[k].val, int64(i)})
	}
	switch vp.Choose(3) {
	case 0:
		isLiteral(expr("p", "{ "+s+"}"), ps, s)
	case 1:
		isLiteral(expr("p", "[{ "+s+"}, 1]"), []interface{}{ps, int64(1)}, s)
	case 2:
		isLiteral(expr("p", "{ z => { "+s+"} }"), []pair{{"z", ps}}, s)
	}
}

// C19_repeated: the last value of a key that is repeated counts, whatever the form of the key.
func C19_repeated() {
	keys := []struct {
		src string
		val interface{}
	}{{"1", int64(1)}, {"a", "a"}, {"'a'", "a"}, {"\"a\"", "a"}, {"0x1", int64(1)}, {"1.0", 1.0}, {"10.0e-1", 1.0}, {"true", true}, {"B", "B"}, {"'B'", "B"}, {"undef", nil}}
	n := 2 + vp.Choose(2)
	s := ""
	var ps []pair
outer:
	for i := 0; i < n; i++ {
		k := keys[vp.Choose(len(keys))]
		s += k.src + " => " + itoa(i) + ", "
		for j := range ps {
			if ps[j].k == k.val {
				ps[j].v = int64(i)
				continue outer
			}
		}
		ps = append(ps, pair{k.val, int64(i)})
	}
	isLiteral(expr("p", "{ "+s+"}"), ps, s)
}
