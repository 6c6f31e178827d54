package main

import (
	"sync"

	"github.com/m4tthewde/gov1/internal/zzverif/hdr"
)

var (
	mu    sync.Mutex
	start [2]hdr.Values
)

// first is what a fresh frame had the first time: it must have that ever after.
func first(k int, t *thread) hdr.Values {
	mu.Lock()
	defer mu.Unlock()
	if start[k] == nil {
		start[k] = t.frame.Read()
	}
	return start[k]
}
