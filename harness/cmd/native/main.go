// Command native replays recorded input vectors against the real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"vpharness/h"
	"vpharness/vp"
)

type kase struct {
	H  string   `json:"h"`
	In []uint64 `json:"in"`
}

func main() {
	deep := os.Getenv("VP_THOROUGH") == "1"
	vp.CLI = os.Getenv("VP_CLI")
	debug.SetMaxStack(256 << 20)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for i := 0; sc.Scan(); i++ {
		var k kase
		if err := json.Unmarshal(sc.Bytes(), &k); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := h.Registry[k.H]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", k.H)
			os.Exit(3)
		}
		fmt.Fprintf(out, "START %d\n", i)
		out.Flush()
		done := make(chan map[string]interface{}, 1)
		go func() {
			s, m, o := vp.Replay(f, k.In, deep)
			done <- map[string]interface{}{"status": s, "msg": m, "obs": o}
		}()
		var r map[string]interface{}
		t0 := time.Now()
		for r == nil {
			select {
			case r = <-done:
			case <-time.After(200 * time.Millisecond):
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					fmt.Fprintln(out, `{"status":"memory","msg":"more than 3 GB of memory used"}`)
					out.Flush()
					os.Exit(4)
				}
				if time.Since(t0) > 10*time.Second {
					fmt.Fprintln(out, `{"status":"timeout","msg":"no result within 10 s"}`)
					out.Flush()
					os.Exit(4)
				}
			}
		}
		enc.Encode(r)
		out.Flush()
	}
}
