package full

import (
	"fmt"
	"math"
	"reflect"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func init() {
	type ChainCase struct {
		LunarYear, Start, Steps int
		Exc                     bool
		Clock                   int // seconds after midnight of the starting uposatha
		Zone                    int // its date's timezone, seconds east of UTC
		Status                  int // its attributes of its own, not those of the next
		Source, Comments        string
		Nano                    int `json:",omitempty"`
	}
	h.Register(h.Spec[ChainCase]{
		ID: "C08",
		Rule: "from the Kattika full moon before every lunar year 641..4000 one whole lunar year (exceptions off and on), plus generated starts anywhere, at any time of day, in any timezone, of any status and with any source and comments, with chains up to 400 steps; " +
			"every field of every uposatha against the reference calendar. Non-trivial: the chain runs through an adhikamasa or adhikavara year and over a year end.",
		Quick: 30000, Thorough: 400000,
		Gen: func(t *rapid.T) ChainCase {
			return ChainCase{years(641, 3980).Draw(t, "lunar year"), rapid.IntRange(0, 23).Draw(t, "start"),
				rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 120), rapid.IntRange(1, 400)).Draw(t, "steps"), rapid.Bool().Draw(t, "exceptions"),
				rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 86399)).Draw(t, "clock"),
				rapid.OneOf(rapid.Just(0), genZone()).Draw(t, "zone"), rapid.IntRange(0, 2).Draw(t, "status"), rapid.SampledFrom([]string{"", "s", "Ministry"}).Draw(t, "source"), rapid.SampledFrom([]string{"", "c", "moved"}).Draw(t, "comments"),
				rapid.OneOf(rapid.Just(0), rapid.Just(0), rapid.IntRange(0, 999999999)).Draw(t, "nano")}
		},
		Sweep: func(c *h.Ctx, yield func(ChainCase) bool) {
			sweepYearX(642, 4000)(c, func(v YearX) bool {
				n := 25
				if ref.Adhikamasa(v.Year) {
					n = 27
				}
				return yield(ChainCase{LunarYear: v.Year - 1, Start: -1, Steps: n, Exc: v.Exc, Status: 2})
			})
		},
		Check: func(c *h.Ctx, v ChainCase) {
			su.UseExceptions = v.Exc
			var want []ref.Uposatha
			y := v.LunarYear
			for len(want) < v.Steps+30 {
				want = append(want, ref.Uposathas(y, v.Exc)...)
				y++
			}
			n := v.Start
			if n < 0 { // the last one of the lunar year
				n = len(ref.Uposathas(v.LunarYear, v.Exc)) - 1
			}
			off := time.Duration(v.Clock)*time.Second + time.Duration(v.Nano)
			u := refUposatha(want[n], 2)
			u.Date = u.Date.Add(off)
			if v.Zone != 0 {
				u.Date = u.Date.In(time.FixedZone("", v.Zone))
			}
			u.Status, u.Source, u.Comments = v.Status, v.Source, v.Comments
			first := u
			special, crosses := false, false
			for i := 0; i < v.Steps; i++ {
				before := u
				next := u.NextUposatha()
				c.Check(reflect.DeepEqual(u, before), "asking for the next uposatha changed the one asked: %s", uposathaText(u))
				n++
				w := refUposatha(want[n], 0)
				w.Date = w.Date.Add(off)
				g := next
				g.Date = g.Date.UTC()
				if uposathaText(g) != uposathaText(w) {
					c.Failf("step %d, after\n   %s\ncomes\n   %s\nwant\n   %s", i+1, uposathaText(u), uposathaText(next), uposathaText(w))
				}
				special = special || next.LunarMonth == 13 || next.HasAdhikavara
				crosses = crosses || next.Date.Year() != u.Date.Year()
				u = next
			}
			_ = first
			c.Points(v.Steps)
			c.NonTrivial(special && crosses)
			c.Class(special, "intercalary year")
			c.Class(crosses, "year end")
			c.Class(v.Exc, "exceptions on")
			c.Class(v.Steps > 100, "over 100 steps")
			c.Class(v.Zone != 0, "a date in another timezone")
		},
	})

	uposathas := func(y int) []su.UposathaMoon {
		var out []su.UposathaMoon
		for _, e := range su.GenerateSolarYear(y) {
			if u, ok := e.(su.UposathaMoon); ok {
				out = append(out, u)
			}
		}
		return out
	}
	h.Register(h.Spec[YearX]{
		ID: "C09",
		Rule: "every solar year 642..4000 with the exceptions off and on, plus generated; the uposathas of the year against the reference and joined with those of the next year. " +
			"Non-trivial: an adhikamasa or adhikavara year, or one with 25 uposathas.",
		Quick: 5000, Thorough: 50000, Gen: genYearX(642, 4000), Sweep: sweepYearX(642, 4000),
		Check: func(c *h.Ctx, v YearX) {
			su.UseExceptions = v.Exc
			us := uposathas(v.Year)
			var got []string
			full := 0
			for _, u := range us {
				got = append(got, uposathaText(u))
				if u.Phase == "full" {
					full++
				}
			}
			want := refListing(v.Year, v.Exc, "uposatha")
			if d := diff(got, want); d != "" {
				c.Failf("uposathas of %d (exceptions %v): %s", v.Year, v.Exc, d)
			}
			c.Check(fmt.Sprint(got) == fmt.Sprint(want), "uposathas of %d are not in date order", v.Year)
			c.Check(len(us) >= 24 && len(us) <= 25 && full >= 12 && full <= 13, "%d has %d uposathas, %d full moons", v.Year, len(us), full)
			chain := append(us, uposathas(v.Year+1)...)
			for i := 1; i < len(chain); i++ {
				a, b := chain[i-1], chain[i]
				d := b.Date.Sub(a.Date)
				c.Check(a.Phase != b.Phase && (d == 14*24*time.Hour || d == 15*24*time.Hour), "after %s comes %s", uposathaText(a), uposathaText(b))
			}
			c.Points(len(chain))
			c.NonTrivial(ref.Length(v.Year, v.Exc) != 354 || len(us) == 25)
			c.Class(len(us) == 25, "25 uposathas")
			c.Class(ref.Adhikamasa(v.Year), "adhikamasa")
		},
	})

	h.Register(h.Spec[YearX]{
		ID: "C10",
		Rule: "every solar year 642..4000 with the exceptions off and on, plus generated; the major events of the year against the reference and their own relations. " +
			"Non-trivial: an adhikamasa or adhikavara year.",
		Quick: 5000, Thorough: 50000, Gen: genYearX(642, 4000), Sweep: sweepYearX(642, 4000),
		Check: func(c *h.Ctx, v YearX) {
			su.UseExceptions = v.Exc
			l := listing(v.Year)
			if d := diff(only(l, "major"), refListing(v.Year, v.Exc, "major")); d != "" {
				c.Failf("major events of %d (exceptions %v): %s", v.Year, v.Exc, d)
			}
			at := map[string]time.Time{}
			fullMoon := map[string]bool{}
			for _, e := range su.GenerateSolarYear(v.Year) {
				switch m := e.(type) {
				case su.MajorEvent:
					_, dup := at[m.Summary]
					c.Check(!dup, "%d has %s twice", v.Year, m.Summary)
					at[m.Summary] = m.Date
				case su.UposathaMoon:
					fullMoon[stamp(m.Date)] = m.Phase == "full"
				}
			}
			c.Check(len(at) == 6, "%d has %d major events: %v", v.Year, len(at), at)
			for _, n := range []string{"Māgha Pūjā", "Vesākha Pūjā", "Āsāḷha Pūjā", "Pavāraṇā Day"} {
				c.Check(fullMoon[stamp(at[n])], "%s of %d, %v, is not on a full-moon uposatha", n, v.Year, at[n])
			}
			a := yr(v.Year).AsalhaPuja()
			c.Check(a.Equal(at["Āsāḷha Pūjā"]), "Asalha Puja of %d is %v, listed %v", v.Year, a, at["Āsāḷha Pūjā"])
			days := func(x, y string) int { return int(math.Round(at[y].Sub(at[x]).Hours() / 24)) }
			c.Check(days("Āsāḷha Pūjā", ref.FirstVassa) == 1, "Vassa %d starts %v, Asalha Puja is %v", v.Year, at[ref.FirstVassa], at["Āsāḷha Pūjā"])
			c.Check(days("Pavāraṇā Day", ref.LastVassa) == 0, "Vassa %d ends %v, Pavarana is %v", v.Year, at[ref.LastVassa], at["Pavāraṇā Day"])
			c.Check(days(ref.FirstVassa, ref.LastVassa) == 88, "Vassa %d lasts to %d days after its first", v.Year, days(ref.FirstVassa, ref.LastVassa))
			if n := days("Māgha Pūjā", "Vesākha Pūjā"); n != 88 && n != 89 {
				c.Failf("Vesakha Puja of %d is %d days after Magha Puja", v.Year, n)
			}
			if n := days("Vesākha Pūjā", "Āsāḷha Pūjā"); n < 59 || n > 60 {
				c.Failf("Asalha Puja of %d is %d days after Vesakha Puja", v.Year, n)
			}
			c.Points(10)
			c.NonTrivial(ref.Length(v.Year, v.Exc) != 354)
			c.Class(ref.Adhikamasa(v.Year), "adhikamasa")
			c.Class(ref.Adhikavara(v.Year, v.Exc), "adhikavara")
		},
	})

	h.Register(h.Spec[YearX]{
		ID: "C11",
		Rule: "every solar year 642..4000 with the exceptions off and on, plus generated; the half moons of the year against the uposathas of the listings of it and of the year before, and the reference. " +
			"Non-trivial: the first half moon belongs to an uposatha of the year before.",
		Quick: 5000, Thorough: 50000, Gen: genYearX(643, 4000), Sweep: sweepYearX(643, 4000),
		Check: func(c *h.Ctx, v YearX) {
			su.UseExceptions = v.Exc
			got := only(listing(v.Year), "half")
			if d := diff(got, refListing(v.Year, v.Exc, "half")); d != "" {
				c.Failf("half moons of %d (exceptions %v): %s", v.Year, v.Exc, d)
			}
			var want []string
			cross := false
			for _, u := range append(uposathas(v.Year-1), uposathas(v.Year)...) {
				d := u.Date.AddDate(0, 0, 8)
				if d.Year() == v.Year {
					want = append(want, "half "+stamp(d)+" "+map[string]string{"new": "waxing", "full": "waning"}[u.Phase])
					cross = cross || u.Date.Year() != v.Year
				}
			}
			if d := diff(got, want); d != "" {
				c.Failf("half moons of %d do not go with its uposathas: %s", v.Year, d)
			}
			c.Points(2 * len(got))
			c.NonTrivial(cross)
			c.Class(cross, "from the year before")
		},
	})

	h.Register(h.Spec[YearX]{
		ID: "C16",
		Rule: "every uposatha of every solar year 642..4000 (exceptions off) and of generated years with them on, against lunation times computed after Meeus. " +
			"Non-trivial: an adhikamasa or adhikavara year.",
		Quick: 3000, Thorough: 20000, Gen: genYearX(642, 4000),
		Sweep: func(c *h.Ctx, yield func(YearX) bool) {
			for y := 642; y <= 4000; y++ {
				if !yield(YearX{y, false}) {
					return
				}
			}
		},
		Assumptions: []string{"lunation times after Meeus, good to minutes in modern times and within hours (delta T) in the far past and future"},
		Check: func(c *h.Ctx, v YearX) {
			su.UseExceptions = v.Exc
			last := map[string]int{}
			n := 0
			for _, u := range append(uposathas(v.Year), uposathas(v.Year+1)...) {
				ph := 0
				if u.Phase == "full" {
					ph = 2
				}
				noon := float64(u.Date.Unix()) + 43200
				q := ref.NearestQuarter(noon, ph)
				d := (noon - ref.PhaseUnix(q)) / 86400
				c.Check(d > -3 && d < 3, "%s is %.2f days from the %s moon of %v", uposathaText(u), d, u.Phase, time.Unix(int64(ref.PhaseUnix(q)), 0).UTC())
				if l, ok := last[u.Phase]; ok {
					c.Check(q == l+4, "%s: %d lunations after the one before", uposathaText(u), (q-l)/4)
				}
				last[u.Phase] = q
				n++
			}
			c.Check(n >= 48, "only %d uposathas in %d and %d", n, v.Year, v.Year+1)
			c.Points(n)
			c.NonTrivial(ref.Length(v.Year, v.Exc) != 354)
			c.Class(ref.Adhikamasa(v.Year), "adhikamasa")
		},
	})
}
