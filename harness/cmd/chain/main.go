// Command chain checks the consensus properties.
package main

import (
	"verifharness/mon"
	"verifharness/ref"
)

func keccak(b []byte) [32]byte { return ref.Keccak(b) }

func main() {
	mon.Main(map[string]mon.Check{
		"C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20,
	})
}
