package sync

import _ "unsafe"

//go:linkname vsimYield
func vsimYield()

// VsimYield is a simulation yield point for package sync.
func VsimYield() { vsimYield() }
