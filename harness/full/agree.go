package full

import (
	"fmt"
	"time"

	su "github.com/splendidmoons/suriya-go"

	"verif/h"
	"verif/ref"
)

func civil(t time.Time) ref.Day {
	u := t.UTC()
	return ref.FromCivil(u.Year(), int(u.Month()), u.Day())
}

func init() {
	h.Register(h.Spec[YearX]{
		ID: "C40",
		Rule: "every uposatha of every solar year 642..4000 with the exceptions off and on, and every New Year's Day 638..4000, plus generated years: the day arithmetic asked for the day of the calendar. " +
			"Non-trivial: the year is adhikamasa or adhikavara, or one after such a year.",
		Quick: 3000, Thorough: 60000, Gen: genYearX(642, 4000), Sweep: sweepYearX(638, 4000),
		Check: func(c *h.Ctx, v YearX) {
			su.UseExceptions = v.Exc
			s := yr(v.Year)
			// New Year's Day is a day of its year, on which the Sun starts its circle
			t := su.HorakhunToDate(int64(s.Horakhun))
			c.Check(t.Year() == v.Year && t.YearDay() >= 80 && t.YearDay() <= 142, "New Year's Day of %d, horakhun %d, is %v", v.Year, s.Horakhun, t)
			var d su.SuriyaDay
			d.Init(v.Year, s.Tithi)
			c.Check(d.Horakhun == s.Horakhun, "day %d, New Year's Day of %d, has horakhun %d and the year %d", s.Tithi, v.Year, d.Horakhun, s.Horakhun)
			c.Check(ref.Apart(d.MeanSun, 0) < 1.1, "on New Year's Day of %d the mean Sun is at %v", v.Year, d.MeanSun)
			c.Points(3)
			if v.Year < 642 {
				return
			}
			before := yr(v.Year - 1)
			firsts := map[int]ref.Day{ // day 0
				v.Year:     civil(su.HorakhunToDate(int64(s.Horakhun - s.Tithi))),
				v.Year - 1: civil(su.HorakhunToDate(int64(before.Horakhun - before.Tithi))),
			}
			for _, e := range su.GenerateSolarYear(v.Year) {
				u, ok := e.(su.UposathaMoon)
				if !ok {
					continue
				}
				// the days before New Year's Day are named in both years
				for year, first := range firsts {
					n := int(civil(u.Date) - first) // the n-th day
					if year < v.Year && n > 400 {
						continue
					}
					var d su.SuriyaDay
					d.Init(year, n)
					what := fmt.Sprintf("%s uposatha of %v, day %d of %d (exceptions %v)", u.Phase, u.Date, n, year, v.Exc)
					c.Check(civil(su.HorakhunToDate(int64(d.Horakhun))) == civil(u.Date), "%s: horakhun %d is %v", what, d.Horakhun, su.HorakhunToDate(int64(d.Horakhun)))
					// a full moon ends the bright half of the month: tithi 14 to 16, a
					// new moon the dark half; the exceptions can make it a day early
					lo, mid := 14, 180.0
					if u.Phase == "new" {
						lo, mid = 28, 0
					}
					k := int(ref.FloorMod(int64(d.Tithi-lo), 30))
					el := ref.Diff(d.TrueMoon-mid, d.TrueSun)
					early := v.Exc && k == 29
					c.Check(k <= 2 || early, "%s: the tithi is %d", what, d.Tithi)
					c.Check(el > -20 && el < 20, "%s: the Moon, at %v, is %.1f degrees from its place with the Sun at %v", what, d.TrueMoon, el, d.TrueSun)
					c.Points(3)
				}
			}
			for y := v.Year - 1; y <= v.Year; y++ {
				c.NonTrivial(ref.Adhikamasa(y) || ref.Adhikavara(y, v.Exc))
			}
			c.Class(ref.Adhikamasa(v.Year), "adhikamasa")
			c.Class(ref.Adhikavara(v.Year, v.Exc), "adhikavara")
		},
	})
}
