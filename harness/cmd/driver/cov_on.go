//go:build verifcov

package main

import "github.com/liyue201/gostl/utils/vcov"

func covReset()                  { vcov.Reset() }
func covTouched() []uint32       { return vcov.Touched }
func covClass(slot uint32) uint8 { return vcov.Class(slot) }
