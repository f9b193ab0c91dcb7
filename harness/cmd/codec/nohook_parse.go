//go:build !hook_p2p__parse

package main

const haveParse = false

func parseAny(kind byte, id uint32, b []byte) (interface{}, error) { return nil, nil }
