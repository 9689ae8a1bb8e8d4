package h

import (
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// try calls f and tells if it panics
func try(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return
}

// step checks Peek and Next at the current position against the decoding of
// the text. The result is false when the text cannot be read further.
func step(r parser.StringReader, s string) bool {
	at := r.Pos()
	var c, pc rune
	var st, sz int
	bad := try(func() { pc, sz = r.Peek() })
	vp.Assert(r.Pos() == at, "peek moves")
	bad2 := try(func() { c, st = r.Next() })
	vp.Assert(bad == bad2, "peek and next differ")
	if at >= len(s) {
		vp.Assert(!bad && pc == 0 && sz == 0 && c == 0 && r.Pos() == at, "not at end")
		return false
	}
	x, n := utf8.DecodeRuneInString(s[at:])
	if x == 0 || x == utf8.RuneError && n <= 1 {
		vp.Assert(bad, "illegal character is accepted")
		vp.Assert(r.Pos() == at, "position after error")
		return false
	}
	if bad {
		vp.Fail("legal character is rejected")
	}
	vp.Assert(pc == x && c == x, "wrong character")
	vp.Assert(st == at && sz == n && r.Pos() == at+n, "wrong position")
	vp.Assert(r.From(at) == s[at:at+n], "wrong text")
	return true
}

// C24_next: reading arbitrary text character by character.
func C24_next() {
	s := vp.Bytes(lenFor(5, 7))
	r := parser.NewStringReader(s)
	vp.Assert(r.Text() == s && r.Pos() == 0, "initial state")
	for step(r, s) {
	}
	vp.Assert(r.From(0) == s[:r.Pos()], "consumed text")
}

// C24_ops: arbitrary sequences of operations against a model.
func C24_ops() {
	n := lenFor(3, 4)
	s := vp.Bytes(n)
	r := parser.NewStringReader(s)
	pos := 0
	ops := 3
	if vp.Thorough() {
		ops = 4
	}
	for i := 0; i < ops; i++ {
		switch vp.Choose(3) {
		case 0:
			if !step(r, s) {
				return
			}
			_, k := utf8.DecodeRuneInString(s[pos:])
			pos += k
		case 1:
			pos = vp.Choose(n + 1)
			r.SetPos(pos)
		default:
			k := vp.Choose(n - pos + 1)
			r.Advance(k)
			pos += k
		}
		vp.Assert(r.Pos() == pos && r.Text() == s, "position")
		k := vp.Choose(pos + 1)
		vp.Assert(r.From(k) == s[k:pos], "text")
	}
	step(r, s)
}
