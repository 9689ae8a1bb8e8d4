// Package h holds the harnesses. A harness Cxx_name decides a part of
// property Cxx for all values of its symbolic inputs. Only the public API of
// puppet-parser is used.
package h

import (
	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// optionsOf returns the parser options of a template mode.
func optionsOf(mode string) []parser.Option {
	switch mode {
	case "e":
		return []parser.Option{parser.EppMode}
	case "w":
		return []parser.Option{parser.WorkflowEnabled}
	case "t":
		return []parser.Option{parser.TasksEnabled}
	case "b":
		return []parser.Option{parser.HandleBacktickStrings, parser.HandleHexEscapes}
	}
	return nil
}

// ParseMode parses with a new parser configured for the mode.
func ParseMode(mode, src string) (parser.Expression, error) {
	return parser.CreateParser(optionsOf(mode)...).Parse("", src, mode == "s")
}

// mustPN parses and asserts success. The result is the PN of the tree.
func mustPN(mode, src string) string {
	e, err := ParseMode(mode, src)
	if err != nil {
		vp.Fail("rejected: " + err.Error() + " in " + src)
	}
	return e.ToPN().String()
}

func expectPN(mode, src, pn string) {
	got := mustPN(mode, src)
	vp.Assert(got == pn, "source "+src+" gives "+got+" instead of "+pn)
}

// repl replaces every occurrence of byte o with n
func repl(s string, o, n byte) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == o {
			b[i] = n
		} else {
			b[i] = s[i]
		}
	}
	return string(b)
}
