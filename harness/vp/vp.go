// Package vp is the interface between harnesses and the symbolic engine. The
// engine replaces every exported function; the bodies below run natively and
// replay a recorded input vector against the real code.
package vp

import (
	"bytes"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
)

type stop struct{ kind, msg string }

// Ob is one recorded observation.
type Ob struct {
	L string `json:"l"`
	V string `json:"v"`
}

var inputs []uint64
var pos int
var thorough bool
var obs []Ob
var CLI string

func next() uint64 {
	if pos >= len(inputs) {
		pos++
		return 0
	}
	v := inputs[pos]
	pos++
	return v
}

// Byte returns an arbitrary byte.
func Byte() byte { return byte(next()) }

// Bool returns an arbitrary boolean.
func Bool() bool { return next() == 1 }

// Bytes returns an arbitrary string of n bytes.
func Bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next())
	}
	return string(b)
}

// ByteOf returns an arbitrary byte of the alphabet.
func ByteOf(alphabet string) byte { return byte(next()) }

// BytesOf returns an arbitrary string of n bytes from the alphabet.
func BytesOf(alphabet string, n int) string { return Bytes(n) }

// Choose returns an arbitrary number in [0,n); the engine explores each
// value on its own path.
func Choose(n int) int { return int(next()) }

// Int returns an arbitrary integer in [lo,hi].
func Int(lo, hi int) int { return int(int64(next())) }

// Assume discards inputs that do not satisfy c.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states that c holds for all inputs.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"fail", msg})
	}
}

// Fail reports a violation.
func Fail(msg string) { panic(stop{"fail", msg}) }

// Cover records that a situation was reached.
func Cover(label string) {}

// Observe records a value that engine and native run must agree on.
func Observe(label, s string) { obs = append(obs, Ob{label, s}) }

// Thorough tells whether the deep bounds are in use.
func Thorough() bool { return thorough }

// Known ends the path when a recorded known finding applies.
func Known(id string, c bool) {
	if c {
		panic(stop{"known", id})
	}
}

// RunCLI runs the command line program with one input file.
func RunCLI(args []string, file, content string) (code int, stdout, stderr string) {
	dir, err := ioutil.TempDir("", "vpcli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := ioutil.WriteFile(filepath.Join(dir, file), []byte(content), 0600); err != nil {
		panic(err)
	}
	c := exec.Command(CLI, args...)
	c.Dir = dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err = c.Run()
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	} else if err != nil {
		panic(err)
	}
	return code, so.String(), se.String()
}

// Replay runs f natively on a recorded input vector.
func Replay(f func(), in []uint64, deep bool) (status, msg string, o []Ob) {
	inputs, pos, thorough, obs = in, 0, deep, nil
	status = "panic"
	defer func() {
		o = obs
		if status == "ok" {
			return
		}
		r := recover()
		if s, ok := r.(stop); ok {
			status, msg = s.kind, s.msg
			return
		}
		status, msg = "panic", text(r)
	}()
	f()
	status = "ok"
	return
}
