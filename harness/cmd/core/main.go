package main

import (
	"verif/core"
	"verif/h"
)

func main() { h.Main(core.Reset) }
