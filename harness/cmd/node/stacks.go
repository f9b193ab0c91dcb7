package main

import (
	"runtime"
	"strings"
)

// stacks gives the stacks of goroutines that have the text.
func stacks(text string) string {
	b := make([]byte, 16<<20)
	b = b[:runtime.Stack(b, true)]
	var r []string
	for _, s := range strings.Split(string(b), "\n\n") {
		if strings.Contains(s, text) {
			r = append(r, s)
		}
	}
	return strings.Join(r, "\n\n")
}
