package main

import (
	_ "vharness/checks/lib"
	"vharness/vh"
)

func main() { vh.Main() }
