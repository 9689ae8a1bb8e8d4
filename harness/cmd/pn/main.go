// Command pn prints the PN of the template sources on stdin (JSON lines).
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"vpharness/h"
)

func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var r [2]string
		json.Unmarshal(sc.Bytes(), &r)
		e, err := h.ParseMode(r[0], r[1])
		s := ""
		if err != nil {
			s = "ERR " + err.Error()
		} else {
			s = e.ToPN().String()
		}
		b, _ := json.Marshal(s)
		os.Stdout.Write(append(b, '\n'))
	}
}
