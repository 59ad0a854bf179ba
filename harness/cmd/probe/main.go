// probe answers queries given as JSON on stdin, one batch, and prints the
// answers as JSON; built for a 32-bit platform.
package main

import (
	"time"

	"verif/full"
)

func main() {
	time.Local = time.FixedZone("harness", 20700)
	full.AnswerStdin()
}
