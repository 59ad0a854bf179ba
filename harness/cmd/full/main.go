package main

import (
	"os"

	"verif/core"
	"verif/full"
	"verif/h"
)

func main() {
	if os.Getenv("VERIF_ANSWER") != "" {
		full.AnswerStdin()
		return
	}
	h.Main(core.Reset)
}
