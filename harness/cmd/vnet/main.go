package main

import (
	_ "vharness/checks/net"
	"vharness/vh"
)

func main() { vh.Main() }
