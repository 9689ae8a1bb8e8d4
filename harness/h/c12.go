package h

import (
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"

	"vpharness/vp"
)

// C12_locator: line and position of every offset of arbitrary text.
func C12_locator() {
	n := lenFor(4, 6)
	s := vp.Bytes(n)
	l := parser.NewLocator("file", s)
	vp.Assert(l.String() == s, "text")
	vp.Assert(l.File() == "file", "file")
	off := vp.Choose(n + 1)
	line, start := 1, 0
	for i := 0; i < off; i++ {
		if s[i] == '\n' {
			line++
			start = i + 1
		}
	}
	if vp.Bool() { // the order of the questions is irrelevant
		vp.Assert(l.LineForOffset(off) == line, "line")
		vp.Assert(l.PosOnLine(off) == utf8.RuneCountInString(s[start:off])+1, "position")
	} else {
		vp.Assert(l.PosOnLine(off) == utf8.RuneCountInString(s[start:off])+1, "position")
		vp.Assert(l.LineForOffset(off) == line, "line")
	}
}

// C12_long: as C12_locator, in a text with many lines and long lines.
func C12_long() {
	lines := []int{0, 31, 33, 70}[vp.Choose(4)]
	var b []byte
	for i := 0; i < lines; i++ {
		if i%3 == 1 {
			b = append(b, "abc\u00e5d"...)
		}
		b = append(b, '\n')
	}
	k := len(b)
	n := lenFor(3, 5)
	s := string(b) + vp.Bytes(n) + "\nx\u4e16y"
	l := parser.NewLocator("", s)
	off := k + vp.Choose(len(s)-k+1)
	line, start := 1, 0
	for i := 0; i < off; i++ {
		if s[i] == '\n' {
			line++
			start = i + 1
		}
	}
	_ = l.LineForOffset(vp.Choose(2) * k)
	vp.Assert(l.LineForOffset(off) == line, "line")
	vp.Assert(l.PosOnLine(off) == utf8.RuneCountInString(s[start:off])+1, "position")
}

// C12_questions: the answers for an offset do not depend on what was asked before.
func C12_questions() {
	n := lenFor(4, 6)
	s := vp.Bytes(n)
	l := parser.NewLocator("file", s)
	for q := 0; q < 2; q++ {
		off := vp.Choose(n + 1)
		line, start := 1, 0
		for i := 0; i < off; i++ {
			if s[i] == '\n' {
				line++
				start = i + 1
			}
		}
		if vp.Bool() {
			vp.Assert(l.LineForOffset(off) == line, "line")
		} else {
			vp.Assert(l.PosOnLine(off) == utf8.RuneCountInString(s[start:off])+1, "position")
		}
	}
}

// C12_monotonic: positions are ordered like the offsets.
func C12_monotonic() {
	n := lenFor(5, 7)
	s := vp.Bytes(n)
	l := parser.NewLocator("", s)
	l0, p0 := 1, 1
	for off := 1; off <= n; off++ {
		l1, p1 := l.LineForOffset(off), l.PosOnLine(off)
		if s[off-1] == '\n' {
			vp.Assert(l1 == l0+1 && p1 == 1, "offset after newline must be the first of the next line")
		} else {
			vp.Assert(l1 == l0 && (p1 == p0+1 || p1 <= p0+2 && s[off-1] >= 0x80), "same line")
		}
		l0, p0 = l1, p1
	}
}

// C12_parsed: the tree reports the positions that a locator computes.
func C12_parsed() {
	a := vp.BytesOf(" \n", lenFor(3, 5))
	src := a + "$x = [1,\n \u00e5] "[:9] + vp.BytesOf(" \n\t", 2) + "b]"
	e, err := parser.CreateParser().Parse("f", src, false)
	if err != nil {
		vp.Fail(err.Error())
	}
	for _, n := range nodesOf(e) {
		off := n.e.ByteOffset()
		vp.Assert(n.e.Line() == lineOf(src, off) && n.e.Pos() == posOf(src, off), "position of "+n.e.Label())
		vp.Assert(n.e.Locator().String() == src && n.e.Locator().File() == "f", "locator")
	}
}
