package full

import (
	"encoding/json"
	"fmt"
	"math"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

const phaseTolerance = 300 // seconds; the worst of the recorded moons is 202 s off

var recordedNames = [4]string{"new moon", "first quarter", "full moon", "last quarter"}

func init() {
	type Span struct{ From, To int64 } // seconds
	h.Register(h.Spec[Span]{
		ID: "C15", AnySwitch: true,
		Rule: "every year 1902..2033, and generated spans of it from a day to three years: what a query returns against phase times computed after Meeus, within five minutes; the recorded code, name, time and timestamp of the embedded data against each other. " +
			"Non-trivial: the span holds all four phases.",
		Quick: 10000, Thorough: 150000,
		Assumptions: []string{"phase times after Meeus ch. 49 are good to a few minutes"},
		Gen: func(t *rapid.T) Span {
			a := ref.FromCivil(rapid.IntRange(1902, 2033).Draw(t, "year"), 1, 1).Unix() + int64(rapid.IntRange(0, 365*86400).Draw(t, "second"))
			n := rapid.OneOf(rapid.IntRange(86400, 60*86400), rapid.IntRange(86400, 1100*86400)).Draw(t, "length")
			return Span{a, a + int64(n)}
		},
		Sweep: func(c *h.Ctx, yield func(Span) bool) {
			for y := 1902; y <= 2033; y++ {
				if !yield(Span{ref.FromCivil(y, 1, 1).Unix(), ref.FromCivil(y+1, 1, 1).Unix() - 1}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v Span) {
			if end := ref.FromCivil(2034, 1, 1).Unix() - 1; v.To > end {
				v.To = end
			}
			from, to := time.Unix(v.From, 0).UTC(), time.Unix(v.To, 0).UTC()
			got := su.GetAstroMoons(from, to)
			seen := map[int]bool{}
			last := math.MinInt
			for _, m := range got {
				ph := -1
				for i, p := range phases {
					if m.Phase == p {
						ph = i
					}
				}
				c.Check(ph >= 0, "moon of phase %q at %v", m.Phase, m.Date)
				q := ref.NearestQuarter(float64(m.Date.Unix()), ph)
				d := float64(m.Date.Unix()) - ref.PhaseUnix(q)
				c.Check(math.Abs(d) <= phaseTolerance, "the %s moon of %v is %.0f s from the computed one", m.Phase, m.Date, d)
				c.Check(!seen[q] && q > last, "the %s moon of %v is given twice or out of order", m.Phase, m.Date)
				seen[q], last = true, q
			}
			n := 0
			q0 := ref.NearestQuarter(float64(v.From), 0) - 8
			for q := q0; ; q++ {
				t := ref.PhaseUnix(q)
				if t > float64(v.To)-phaseTolerance {
					break
				}
				if t < float64(v.From)+phaseTolerance {
					continue
				}
				n++
				if seen[q] {
					continue
				}
				at := time.Unix(int64(t), 0).UTC()
				key := "missing-" + at.Format("2006-01-02")
				switch {
				case at.Year() == 1970:
					key = "no-data-1970"
				case !at.Before(time.Date(2033, 5, 21, 0, 0, 0, 0, time.UTC)):
					key = "missing-2033-from-05-21"
				}
				c.KnownOrFail(key, "the %s moon of %v is missing", phases[ref.FloorMod(int64(q), 4)], at)
			}
			// the data behind it
			for y := from.Year(); y <= to.Year(); y++ {
				b, err := su.FSByte(false, fmt.Sprintf("/data/astro/astro-%d.json", y))
				c.Check(err == nil, "no data of %d: %v", y, err)
				var f astroFile
				if err := json.Unmarshal(b, &f); err != nil {
					c.Failf("data of %d: %v", y, err)
				}
				for _, r := range f.Response {
					c.Check(r.Code >= 0 && r.Code <= 3 && r.Name == recordedNames[r.Code], "%d: moon of %v has code %d and name %q", y, r.DateTimeISO, r.Code, r.Name)
					c.Check(r.Timestamp == r.DateTimeISO.Unix(), "%d: moon of %v has timestamp %d", y, r.DateTimeISO, r.Timestamp)
					c.Check(r.DateTimeISO.UTC().Year() == y, "%d: has a moon of %v", y, r.DateTimeISO)
				}
			}
			c.Points(n + len(got))
			c.NonTrivial(len(got) >= 4)
			c.Class(from.Year() != to.Year(), "over a year end")
		},
	})
}
