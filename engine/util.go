package main

import (
	"fmt"
	"go/types"
	"os"
	"unsafe"
)

type typesType = types.Type

var emptyIface types.Type = types.NewInterfaceType(nil, nil).Complete()

func debugf(f string, a ...any) { fmt.Fprintf(os.Stderr, "vp: "+f+"\n", a...) }

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vp: fatal: "+f+"\n", a...)
	os.Exit(0)
}

func (in *Interp) setArena() {
	in.arenaLo = uintptr(unsafe.Pointer(&in.arena[0]))
	in.arenaHi = in.arenaLo + uintptr(len(in.arena))*unsafe.Sizeof(V{})
}
