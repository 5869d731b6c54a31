//go:build !verifsched

package main

func schedMode(k *kind, comp string, seed int64, bound, limit, progs int, lockEvents bool, only string, t *tree, sh, of int) int {
	fatal("built without the scheduler")
	return 0
}

func aloneSched(comp string, seed int64, bound, limit, progs int, only string, t *tree) int {
	fatal("built without the scheduler")
	return 0
}
