//go:debug default=go1.20
package main

import (
	"finchverif/kit"
	_ "finchverif/props"
)

func main() { kit.Main() }
