// conc runs one batch of concurrent queries, given as JSON on stdin, in this
// fresh process and prints what is wrong with the answers.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/full"
)

func main() {
	time.Local = time.FixedZone("harness", 20700)
	var b full.Batch
	if err := json.NewDecoder(os.Stdin).Decode(&b); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(3)
	}
	if m := full.RunBatch(b); m != "" {
		fmt.Println(m)
		os.Exit(4)
	}
	fmt.Println("batch done")
}
