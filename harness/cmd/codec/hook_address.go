//go:build hook_cryptonote__address

package main

import "github.com/r3volut1oner/go-karbo/cryptonote"

const haveAddress = true

func addrEncode(tag uint64, data []byte) string   { return cryptonote.VerifAddressEncode(tag, data) }
func addrDecode(s string) (uint64, []byte, error) { return cryptonote.VerifAddressDecode(s) }
