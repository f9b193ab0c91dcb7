// Binary crypto decides the properties of the cryptographic core.
package main

import (
	"os"

	"verifharness/mon"
)

func main() {
	if m := os.Getenv("VERIF_NONCES"); m != "" {
		mon.EndWithParent()
		nonceProcess(m)
	}
	mon.Main(map[string]mon.Check{
		"C09": checkC09,
		"C10": checkC10,
		"C11": checkC11,
		"C12": checkC12,
	})
}
