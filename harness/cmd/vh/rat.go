package main

import "math/big"

func newRat(s string) (*big.Rat, bool) {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return new(big.Rat), false
	}
	return r, true
}
