package h

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"

	"vpharness/vp"
)

// jsonReader reads a JSON document by the rules of RFC 8259.
type jsonReader struct {
	s string
	i int
}

func (r *jsonReader) bad(why string) { vp.Fail(why + " at " + itoa(r.i) + " in output " + r.s) }

func (r *jsonReader) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\n' || r.s[r.i] == '\t' || r.s[r.i] == '\r') {
		r.i++
	}
}

func (r *jsonReader) peek() byte {
	r.space()
	if r.i >= len(r.s) {
		r.bad("incomplete")
	}
	return r.s[r.i]
}

func (r *jsonReader) expect(c byte) {
	if r.peek() != c {
		r.bad("expected " + string([]byte{c}))
	}
	r.i++
}

func (r *jsonReader) str() string {
	r.expect('"')
	var b []byte
	for {
		if r.i >= len(r.s) {
			r.bad("unterminated string")
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == '"':
			return string(b)
		case c < ' ':
			r.bad("control character")
		case c == '\\':
			d := at(r.s, r.i)
			r.i++
			switch d {
			case '"', '\\', '/':
				b = append(b, d)
			case 'n':
				b = append(b, '\n')
			case 't':
				b = append(b, '\t')
			case 'r':
				b = append(b, '\r')
			case 'b':
				b = append(b, '\b')
			case 'f':
				b = append(b, '\f')
			case 'u':
				v := 0
				for k := 0; k < 4; k++ {
					h := hexVal(at(r.s, r.i))
					if h < 0 {
						r.bad("bad escape")
					}
					v = v*16 + h
					r.i++
				}
				b = append(b, string(rune(v))...)
			default:
				r.bad("bad escape")
			}
		default:
			b = append(b, c)
		}
	}
}

func (r *jsonReader) value() interface{} {
	switch c := r.peek(); {
	case c == '{':
		r.i++
		m := map[string]interface{}{}
		if r.peek() == '}' {
			r.i++
			return m
		}
		for {
			k := r.str()
			if _, dup := m[k]; dup {
				r.bad("duplicate key")
			}
			r.expect(':')
			m[k] = r.value()
			if r.peek() == '}' {
				r.i++
				return m
			}
			r.expect(',')
		}
	case c == '[':
		r.i++
		l := []interface{}{}
		if r.peek() == ']' {
			r.i++
			return l
		}
		for {
			l = append(l, r.value())
			if r.peek() == ']' {
				r.i++
				return l
			}
			r.expect(',')
		}
	case c == '"':
		return r.str()
	}
	st := r.i
	for r.i < len(r.s) && strings.IndexByte("+-.0123456789abcdefghijklmnopqrstuvwxyzE", r.s[r.i]) >= 0 {
		r.i++
	}
	w := r.s[st:r.i]
	switch w {
	case "true":
		return true
	case "false":
		return false
	case "null":
		return nil
	}
	if strings.IndexAny(w, ".eE") < 0 {
		n := 0
		neg := at(w, 0) == '-'
		d := w
		if neg {
			d = w[1:]
		}
		if len(d) == 0 || len(d) > 1 && d[0] == '0' || len(d) > 19 {
			r.bad("bad number")
		}
		for k := 0; k < len(d); k++ {
			if !digit(d[k]) {
				r.bad("bad number")
			}
			n = n*10 + int(d[k]-'0')
		}
		if neg {
			n = -n
		}
		return int64(n)
	}
	f, err := strconv.ParseFloat(w, 64)
	if err != nil {
		r.bad("bad number")
	}
	return f
}

// readJSON reads a text that must be exactly one document.
func readJSON(s string) interface{} {
	r := &jsonReader{s: s}
	v := r.value()
	r.space()
	if r.i != len(s) {
		r.bad("text after the document")
	}
	return v
}

// eqJSON compares a document with data.
func eqJSON(a, b interface{}) bool {
	switch b := b.(type) {
	case []interface{}:
		a, ok := a.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range b {
			if !eqJSON(a[i], b[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		a, ok := a.(map[string]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range b {
			w, ok := a[k]
			if !ok || !eqJSON(w, v) {
				return false
			}
		}
		return true
	case float64:
		if n, ok := a.(int64); ok {
			return float64(n) == b
		}
		a, ok := a.(float64)
		return ok && a == b
	}
	return eqData(a, b)
}

func issueData(i issue.Reported) interface{} {
	return map[string]interface{}{"#": []interface{}{"code", string(i.Code()), "severity", i.Severity().String(), "message", i.Error()}}
}

// checkCLI runs the command and compares with what the library says.
func checkCLI(o options, file, src string) {
	code, out, errs := vp.RunCLI(append(o.args, file), file, src)
	var modes []parser.Option
	if strings.HasSuffix(file, ".epp") {
		modes = append(modes, parser.EppMode)
	}
	if o.tasks {
		modes = append(modes, parser.TasksEnabled)
	}
	if o.workflow {
		modes = append(modes, parser.WorkflowEnabled)
	}
	e, err := parser.CreateParser(modes...).Parse(file, src, false)
	wantCode := 0
	var text []string
	doc := map[string]interface{}{}
	if err != nil {
		wantCode = 1
		text = []string{err.Error()}
		if i, ok := err.(issue.Reported); ok {
			doc["issues"] = []interface{}{issueData(i)}
		} else {
			doc["error"] = err.Error()
		}
	} else {
		issues := []interface{}{}
		for _, i := range validator.ValidatePuppet(e, o.strict).Issues() {
			if i.Severity() == issue.SeverityError {
				wantCode = 1
			}
			text = append(text, i.String())
			issues = append(issues, issueData(i))
		}
		if len(issues) > 0 {
			doc["issues"] = issues
		}
		if wantCode == 0 && !o.validate {
			doc["ast"] = e.ToPN().ToData()
		}
	}
	desc := " for " + src + " with " + strings.Join(o.args, " ")
	vp.Assert(code == wantCode, "exit status "+itoa(code)+" instead of "+itoa(wantCode)+desc)
	if o.json {
		vp.Assert(errs == "", "text on standard error"+desc)
		vp.Assert(eqJSON(readJSON(out), doc), "wrong document "+out+desc)
		return
	}
	all := ""
	for _, t := range text {
		all += t + "\n"
	}
	vp.Assert(errs == all, "standard error is "+errs+" instead of "+all+desc)
	tree := ""
	if wantCode == 0 && !o.validate {
		tree = pn.ToString(e.ToPN()) + "\n"
	}
	vp.Assert(out == tree, "standard output is "+out+" instead of "+tree+desc)
}

type options struct {
	args                            []string
	validate, json, tasks, workflow bool
	strict                          validator.Strictness
}

// anyOptions returns an arbitrary combination of options.
func anyOptions() (o options) {
	o.json = vp.Bool()
	if o.json {
		o.args = append(o.args, []string{"-j", "--j", "-j=true"}[few(3)])
	}
	o.strict = validator.StrictOff
	switch vp.Choose(4) {
	case 0:
		o.args = append(o.args, "-s", []string{"error", "ERROR"}[few(2)])
		o.strict = validator.StrictError
	case 1:
		o.args = append(o.args, []string{"-s=warning", "--s=Warning"}[few(2)])
		o.strict = validator.StrictWarning
	case 2:
		o.args = append(o.args, []string{"-s=off", "-s="}[few(2)])
	}
	o.validate = vp.Bool()
	if o.validate {
		o.args = append(o.args, "-v")
	}
	return
}

// few chooses one of n in thorough runs, and the first one otherwise
func few(n int) int {
	if vp.Thorough() {
		return vp.Choose(n)
	}
	return 0
}

func (o *options) modes(mode string) {
	if mode == "t" {
		o.tasks = true
		o.args = append(o.args, "-t")
	}
	if mode == "w" {
		o.workflow = true
		o.args = append(o.args, "-w")
	}
}

var fileNames = []string{"a.pp", "epp", "a.epp.pp", "a b", "a.EPP"}
var eppNames = []string{"a.epp", "b.pp.epp", ".epp"}

// C20_templates: every construct with every combination of options.
func C20_templates() {
	t := &tmpls[vp.Choose(len(tmpls))]
	if t.mode == "s" || t.mode == "b" {
		return
	}
	src, _ := holes(t)
	o := anyOptions()
	o.modes(t.mode)
	name := fileNames[few(len(fileNames))]
	if t.mode == "e" {
		name = eppNames[few(len(eppNames))]
	}
	checkCLI(o, name, src)
}

// C20_modes: constructs of some mode parsed in another.
func C20_modes() {
	src := []string{"plan x() { }", "step a { }", "workflow a { typespace => 'q' }", "a <%= $x %> b", "$plan = plan", "action x() { }", "<% if $x { %>7<% } %>"}[vp.Choose(7)]
	o := anyOptions()
	if vp.Bool() {
		o.modes("t")
	}
	if vp.Bool() {
		o.modes("w")
	}
	name := fileNames[vp.Choose(len(fileNames))]
	if vp.Bool() {
		name = eppNames[vp.Choose(len(eppNames))]
	}
	checkCLI(o, name, src)
}

// C20_problems: problems of all kinds.
func C20_problems() {
	src, _ := unmark(fill(problem()))
	o := anyOptions()
	checkCLI(o, "a.pp", src)
}

// C20_two: two problems, the first or the second one of which is an error.
func C20_two() {
	ps := []string{"notice(1)", "$x = { a => 1, a => 2 }", "$x = attr", "1 = 2", "7", "$a::b = 1", "f(private)", "class x($a, $a) { }"}
	src := ps[vp.Choose(len(ps))] + "\n" + ps[vp.Choose(len(ps))]
	if vp.Bool() {
		src += "\n" + ps[vp.Choose(len(ps))]
	}
	checkCLI(anyOptions(), "a.pp", src)
}

// C20_bytes: arbitrary sources.
func C20_bytes() {
	src := vp.Bytes(lenFor(2, 3))
	o := options{strict: validator.StrictOff}
	if vp.Bool() {
		o.json = true
		o.args = append(o.args, "-j")
	}
	checkCLI(o, []string{"a.pp", "a.epp"}[vp.Choose(2)], src)
}

// C20_string: arbitrary content of strings in the output.
func C20_string() {
	s := vp.Bytes(lenFor(2, 3))
	vp.Assume(utf8.ValidString(s))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] > 0 && s[i] != '\'' && s[i] != '\\')
	}
	o := options{strict: validator.StrictOff}
	if vp.Bool() {
		o.json = true
		o.args = append(o.args, "-j")
	}
	checkCLI(o, "a.pp", []string{"$x = '" + s + "'", "$x = ['" + s + "'", "if '" + s + "' { } f('#{>')"}[vp.Choose(3)])
}

// C20_usage: what cannot be run fails.
func C20_usage() {
	fails := func(args ...string) {
		code, out, errs := vp.RunCLI(args, "a.pp", "$x = 1")
		vp.Assert(code != 0, "success for "+strings.Join(args, " "))
		vp.Assert(out == "", "output for "+strings.Join(args, " "))
		if len(args) == 0 || !strings.HasSuffix(args[len(args)-1], "a.pp") {
			vp.Assert(errs != "", "silent failure for "+strings.Join(args, " "))
		}
	}
	j := []string{"", "-j", "-v"}[vp.Choose(3)]
	with := func(args ...string) {
		if j != "" {
			args = append([]string{j}, args...)
		}
		fails(args...)
	}
	c := string([]byte{vp.ByteOf(nameTail)})
	switch vp.Choose(6) {
	case 0:
		with()
	case 1:
		with("a.pp", "a.pp")
	case 2:
		with("b" + c + ".pp")
	case 3:
		with("-s", "x"+c, "a.pp")
	case 4:
		with("-z", "a.pp")
	case 5:
		with("a.pp", "-v")
	}
}
