//go:build noshim

package mi
