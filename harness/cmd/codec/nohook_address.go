//go:build !hook_cryptonote__address

package main

const haveAddress = false

func addrEncode(tag uint64, data []byte) string   { return "" }
func addrDecode(s string) (uint64, []byte, error) { return 0, nil, nil }
