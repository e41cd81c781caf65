package main

import "math/big"

type bigInt = big.Int

func newBig(n int64) *big.Int { return big.NewInt(n) }
