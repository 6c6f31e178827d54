//go:build noshim

package tg

func install() bool { return false }
