// Binary node decides the properties of the peer to peer node, it is built with the race detector.
package main

import "verifharness/mon"

func main() {
	mon.Main(map[string]mon.Check{
		"C04": c04,
		"C21": c21,
		"C22": c22,
		"C23": c23,
	})
}
