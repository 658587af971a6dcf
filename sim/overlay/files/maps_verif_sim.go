package maps

import _ "unsafe"

//go:linkname vsimYield
func vsimYield()
