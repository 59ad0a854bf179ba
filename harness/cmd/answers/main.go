// answers prints the moons of ranges, given as pairs of nanoseconds since 1970,
// that the package finds in the local files.
package main

import (
	"encoding/json"
	"os"
	"strconv"
	"time"

	su "github.com/splendidmoons/suriya-go"

	"verif/full"
)

func main() {
	time.Local = time.FixedZone("harness", 20700)
	all := [][]full.StoredMoon{}
	for i := 1; i+1 < len(os.Args); i += 2 {
		a, _ := strconv.ParseInt(os.Args[i], 10, 64)
		b, _ := strconv.ParseInt(os.Args[i+1], 10, 64)
		ms := []full.StoredMoon{}
		for _, m := range su.GetAstroMoons(time.Unix(0, a).UTC(), time.Unix(0, b).UTC()) {
			_, off := m.Date.Zone()
			ms = append(ms, full.StoredMoon{Unix: m.Date.Unix(), Nano: m.Date.Nanosecond(), Zone: off, Phase: m.Phase})
		}
		all = append(all, ms)
	}
	json.NewEncoder(os.Stdout).Encode(all)
}
