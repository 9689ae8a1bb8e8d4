package vp

import "fmt"

func text(r interface{}) string { return fmt.Sprint(r) }
