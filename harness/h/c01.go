package h

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

var allOptions = []parser.Option{parser.EppMode, parser.HandleBacktickStrings, parser.HandleHexEscapes, parser.TasksEnabled, parser.WorkflowEnabled}

func total(p parser.ExpressionParser, src string, single bool) {
	e, err := p.Parse("", src, single)
	vp.Assert((e != nil) != (err != nil), "exactly one of tree and error")
	if err == nil {
		vp.Assert(e.ToPN() != nil, "tree has no representation")
		if _, ok := e.(*parser.Program); ok == single {
			vp.Fail("wrong kind of top expression")
		}
	} else {
		vp.Assert(err.Error() != "", "empty error")
	}
}

// C01_bytes: arbitrary bytes.
func C01_bytes() {
	n := vp.Choose(4)
	if vp.Thorough() {
		n = vp.Choose(6)
	}
	total(parser.CreateParser(), vp.Bytes(n), false)
}

// C01_modes: arbitrary bytes in the other modes.
func C01_modes() {
	n := vp.Choose(3)
	if vp.Thorough() {
		n = vp.Choose(5)
	}
	var opts []parser.Option
	for i, o := range allOptions {
		if i < 3 || n > 1 {
			if vp.Bool() {
				opts = append(opts, o)
			}
		}
	}
	total(parser.CreateParser(opts...), vp.Bytes(n), vp.Bool())
}

// C01_mutants: templates of every construct with arbitrary bytes inserted,
// overwriting, or truncating at every position.
func C01_mutants() {
	t := &tmpls[vp.Choose(len(tmpls))]
	at := vp.Choose(len(t.src) + 1)
	var src string
	switch vp.Choose(3) {
	case 0:
		src = t.src[:at] + vp.Bytes(1)
	case 1:
		src = t.src[:at] + vp.Bytes(1) + t.src[at:]
	default:
		if at == len(t.src) {
			at--
		}
		if at < 0 {
			return
		}
		src = t.src[:at] + vp.Bytes(1) + t.src[at+1:]
	}
	total(parser.CreateParser(optionsOf(t.mode)...), src, t.mode == "s")
}

// tokens are inserted in sources
var tokens = strings.Split("( ) [ ] { } | || , ; : :: . => -> ~> <- <~ = += -= +> ? ! - * + / @ @@ <| |> <<| |>> $ $a $1 ${ 'a' \"a\" \"${a}\" a a::b A A::B A[1] A[a, b] 7 1.5 0x1 /a/ @(E) [1] {} {a=>1} f() |$a|{} if unless else elsif case default undef true false and or in class define function node inherits type plan site application attr private workflow action resource times(1) <% %> <%= -%> # /* */", " ")

func tokenMutant(src string, gaps []int) string {
	if len(gaps) == 0 {
		return src
	}
	k := vp.Choose(len(gaps))
	at, end := gaps[k], len(src)
	if k+1 < len(gaps) {
		end = gaps[k+1]
	}
	tok := tokens[vp.Choose(len(tokens))]
	n := 2
	if vp.Thorough() {
		n = 4
	}
	switch vp.Choose(n) {
	case 0: // insert
		end = at
	case 1: // replace
	case 2: // insert without space
		return src[:at] + tok + src[at:]
	case 3: // end
		return src[:at] + tok
	}
	return src[:at] + tok + " " + src[end:]
}

// C01_tokens: templates of every construct with a token inserted, replaced, or
// removed at every place.
func C01_tokens() {
	t := &tmpls[vp.Choose(len(tmpls))]
	total(parser.CreateParser(optionsOf(t.mode)...), tokenMutant(t.src, t.gaps), t.mode == "s")
}

// C01_grammar: likewise for combinations of constructs.
func C01_grammar() {
	g := someGram(1, 2)
	src, _ := g.source()
	if len(g.gaps) == 0 {
		return
	}
	k := vp.Choose(len(g.gaps))
	at, end := g.gaps[k], len(src)
	if k+1 < len(g.gaps) {
		end = g.gaps[k+1]
	}
	switch vp.Choose(3) {
	case 0:
		src = src[:at]
	case 1:
		src = src[:at] + src[end:]
	case 2:
		src = src[:end] + src[at:]
	}
	total(parser.CreateParser(optionsOf(g.mode)...), src, false)
}

var deepHoles = append([]string{"f() |$w| { ^ }", "f() |$w = ^| { 1 }", "$z.f |Z[^] $w| >> Z { $q }", "f() |$w| >> Z[^] { 1 }", "$w = ^", "($w = ^)", "(1 -> (^))", "if 1 { 2 } else { 3 ^ }", "(f(^)) |$w| { 1 }", "[a => ^]", "Z <| y == (^) |>", "r { 'y': x => ^ }", "notice { (^) => 1 }", "notice { [^] = 1 => 2 }", "(notice { type(^) => 1 })", "return { a => ^ }", "r { (^): a => 1 }", "notice { if (^) { 1 } => 2 }", "Z[^] { a => 1 }", "class z($y = ^) { }", "define z { ^ }", "function z >> Z[^] { }", "notice (^), 2"}, valueHoles...)

// deep nests two places for values in each other, in turns.
func deep(n int) string {
	i, j := vp.Choose(len(deepHoles)), vp.Choose(len(deepHoles))
	vp.Assume(vp.Thorough() || (i+j)%3 == 0)
	a, b := deepHoles[i], deepHoles[j]
	vp.Assume(a[0] != '@' && b[0] != '@') // heredocs do not nest
	src := "$x"
	for i := 0; i < n; i++ {
		p := a
		if i%2 == 1 {
			p = b
		}
		src = strings.Replace(p, "^", src, 1)
	}
	if vp.Bool() {
		return src + "\n$v = 1"
	}
	return "$v = " + src
}

// C01_deep: constructs nested many times in each other.
func C01_deep() {
	n := 40
	if vp.Thorough() {
		n = 80
	}
	src := deep(n)
	if vp.Bool() { // incomplete
		src = src[:len(src)-1]
	}
	total(parser.CreateParser(), src, false)
}
