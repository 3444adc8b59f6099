// Package pretty is an offline stand-in.
package pretty

import "fmt"

func Print(x ...interface{}) (int, error) { return fmt.Println(x...) }
