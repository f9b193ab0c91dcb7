// Binary codec decides the properties of the formats: wire messages, blocks, transactions, addresses and amounts.
package main

import "verifharness/mon"

func main() {
	mon.Main(map[string]mon.Check{
		"C01": checkC01,
		"C02": checkC02,
		"C03": checkC03,
		"C05": checkC05,
		"C06": checkC06,
		"C07": checkC07,
		"C08": checkC08,
		"C24": checkC24,
	})
}
