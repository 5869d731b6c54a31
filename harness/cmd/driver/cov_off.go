//go:build !verifcov

package main

func covReset()             {}
func covTouched() []uint32  { return nil }
func covClass(uint32) uint8 { return 0 }
