package core

import (
	_ "embed"
	"fmt"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// ListingQuery is set by the full build: compares the listing of a solar year
// with the reference and gives a message when they differ.
var ListingQuery func(year int, exceptions bool) string

type Op struct {
	Op   string
	Year int
}

// YearXCase is a year with the exceptions on or off.
type YearXCase struct {
	Year int
	Exc  bool
}

func yearX(lo, hi int) func(t *rapid.T) YearXCase {
	return func(t *rapid.T) YearXCase {
		return YearXCase{years(lo, hi).Draw(t, "year"), rapid.Bool().Draw(t, "exceptions")}
	}
}

func sweepX(lo, hi int) func(c *h.Ctx, yield func(YearXCase) bool) {
	return func(c *h.Ctx, yield func(YearXCase) bool) {
		for _, exc := range []bool{false, true} {
			for y := lo; y <= hi; y++ {
				if !yield(YearXCase{y, exc}) {
					return
				}
			}
		}
	}
}

var officialX = map[int]ref.Day{1994: ref.FromCivil(1994, 7, 22), 1995: ref.FromCivil(1995, 7, 11), 1996: ref.FromCivil(1996, 7, 29), 1997: ref.FromCivil(1997, 7, 19)}

//go:embed testdata/years.csv
var yearsCSV string

// Published is the repository's published table: Asalha Puja by year.
var Published = map[int]ref.Day{}

func init() {
	for i, l := range strings.Split(strings.TrimSpace(yearsCSV), "\n") {
		if i == 0 {
			continue
		}
		f := strings.Split(l, ";")
		var y, a, b, d int
		if _, err := fmt.Sscanf(f[0], "%d", &y); err != nil {
			panic(err)
		}
		if _, err := fmt.Sscanf(f[9], "%d-%d-%d", &a, &b, &d); err != nil {
			panic(err)
		}
		Published[y] = ref.FromCivil(a, b, d)
	}
	if len(Published) != 72 {
		panic("published table")
	}
}

// checkYearX compares all status queries of a year with the reference.
func checkYearX(c *h.Ctx, y int, exc bool) {
	s := yr(y)
	c.Check(s.Is_Adhikamasa() == ref.Adhikamasa(y), "%d adhikamasa %v (exceptions %v)", y, s.Is_Adhikamasa(), exc)
	c.Check(s.Is_Adhikavara() == ref.Adhikavara(y, exc), "%d adhikavara %v (exceptions %v)", y, s.Is_Adhikavara(), exc)
	c.Check(s.YearLength() == ref.Length(y, exc), "%d has %d days, want %d (exceptions %v)", y, s.YearLength(), ref.Length(y, exc), exc)
}

// checkRestX compares what the exceptions do not reach: the elements of a year
// and of every step-th of its days, what its elements qualify it for, its places
// in the cycles.
func checkRestX(c *h.Ctx, y, first, step int, exc bool) {
	s, r := yr(y), ref.NewYear(y)
	what := fmt.Sprintf("year %d (exceptions %v)", y, exc)
	compare(c, what, yearElems(s, r))
	c.Check(s.Is_Suriya_Leap() == (r.Kammacubala <= 207), "%s: leap year %v", what, s.Is_Suriya_Leap())
	c.Check(s.Would_Be_Adhikamasa() == ref.QualifiesM(y) && s.Would_Be_Adhikavara() == ref.QualifiesV(y), "%s: would be adhikamasa %v, adhikavara %v", what, s.Would_Be_Adhikamasa(), s.Would_Be_Adhikavara())
	c.Check(s.AdhikavaraCyclePos() == int(ref.FloorMod(int64(y-1984), 57))+1 && s.AdhikamasaCyclePos() == int(ref.FloorMod(int64(y-1984), 19))+1, "%s: places %d and %d in the cycles", what, s.AdhikavaraCyclePos(), s.AdhikamasaCyclePos())
	d := 1 // from 645 on there is one before
	for !ref.Adhikamasa(y - d) {
		d++
	}
	c.Check(s.DeltaAdhikamasa() == d, "%s: %d years since the last adhikamasa, want %d", what, s.DeltaAdhikamasa(), d)
	for n := first; n <= 390; n += step {
		t := day(y, n)
		hk := r.Horakhun + int64(n) - r.Tithi
		e := ref.ElementsOfHorakhun(hk)
		if int64(t.Horakhun) != hk || int64(t.Uccabala) != e.Uccabala || int64(t.Avoman) != e.Avoman || int64(t.Masaken) != e.Masaken || int64(t.Tithi) != e.Tithi || int64(t.Kammacubala) != r.Kammacubala+800*(hk-r.Horakhun) {
			c.Failf("day %d of %s has the elements %v", n, what, dayInts(t))
		}
		if m := positionDiff(t, ref.DayPosition(y, n)); m != "" {
			c.Failf("day %d of %s: %s", n, what, m)
		}
		c.Points(2)
	}
}

func init() {
	type OpsCase struct{ Ops []Op }
	h.Register(h.Spec[OpsCase]{
		ID: "C05",
		Rule: "generated sequences of switching the exceptions on and off and queries of year status, Kattika, Asalha Puja, distances, listings, elements and positions over years 645..4000 " +
			"(mostly 1990..2000), each answer compared with the reference for the setting in force; plus every year with both settings. " +
			"Non-trivial: the sequence switches at least twice with a query of 1990..2000 after the last switch.",
		Quick: 12000, Thorough: 240000,
		Gen: func(t *rapid.T) OpsCase {
			ky := rapid.OneOf(rapid.IntRange(1992, 1998), rapid.IntRange(1988, 2003), rapid.IntRange(1984, 2041), years(645, 4000))
			// constructed, not filtered: the switch ops are as frequent as the queries
			ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
				o := rapid.SampledFrom([]string{"on", "off", "year", "asalha", "kattika", "on", "off", "year", "asalha", "delta", "listing", "rest"}).Draw(t, "op")
				op := Op{Op: o}
				if o != "on" && o != "off" {
					op.Year = ky.Draw(t, "year")
				}
				return op
			}), 4, 40).Draw(t, "ops")
			return OpsCase{ops}
		},
		Sweep: func(c *h.Ctx, yield func(OpsCase) bool) {
			for y := 1985; y <= 2041; y++ {
				if !yield(OpsCase{[]Op{{"year", y}, {"asalha", y}, {"on", 0}, {"year", y}, {"asalha", y}, {"kattika", y}, {"delta", y}, {"listing", y}, {"days", y}, {"off", 0}, {"year", y}, {"asalha", y}, {"kattika", y}, {"delta", y}, {"listing", y}, {"days", y}}}) {
					return
				}
			}
			for y := 645; y <= 4000; y++ {
				if !yield(OpsCase{[]Op{{"on", 0}, {"year", y}, {"asalha", y}, {"kattika", y}, {"off", 0}, {"year", y}, {"asalha", y}, {"kattika", y}}}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v OpsCase) {
			exc, switches, near := false, 0, false
			su.UseExceptions = false
			for i, o := range v.Ops {
				switch o.Op {
				case "on", "off":
					if exc != (o.Op == "on") {
						switches++
						near = false
					}
					exc = o.Op == "on"
					su.UseExceptions = exc
					continue
				case "year":
					checkYearX(c, o.Year, exc)
				case "rest":
					checkRestX(c, o.Year, i*7%41, 41, exc)
				case "days":
					checkRestX(c, o.Year, -20, 1, exc)
				case "asalha":
					midnight(c, fmt.Sprintf("op %d: Asalha Puja of %d (exceptions %v)", i, o.Year, exc), yr(o.Year).AsalhaPuja(), ref.Asalha(o.Year, exc))
					if d, ok := officialX[o.Year]; ok && exc {
						midnight(c, fmt.Sprintf("official Asalha Puja of %d", o.Year), yr(o.Year).AsalhaPuja(), d)
					} else if o.Year < 1994 || o.Year > 1996 {
						midnight(c, fmt.Sprintf("Asalha Puja of %d, which the exceptions leave alone,", o.Year), yr(o.Year).AsalhaPuja(), ref.Asalha(o.Year, false))
					}
				case "kattika":
					midnight(c, fmt.Sprintf("op %d: Kattika before %d (exceptions %v)", i, o.Year, exc), su.CalculatePreviousKattika(o.Year), ref.Kattika(o.Year, exc))
				case "delta":
					d := 1
					for !ref.Adhikavara(o.Year-d, exc) {
						d++
					}
					if d <= 12 {
						g := yr(o.Year).DeltaAdhikavara()
						c.Check(g == d, "op %d: years since last adhikavara before %d: %d, want %d (exceptions %v)", i, o.Year, g, d, exc)
					}
				case "listing":
					if ListingQuery != nil && o.Year > 641 {
						if m := ListingQuery(o.Year, exc); m != "" {
							c.Failf("op %d: listing of %d (exceptions %v): %s", i, o.Year, exc, m)
						}
					}
				}
				c.Check(su.UseExceptions == exc, "op %d %v changed the exceptions switch", i, o)
				c.Points(1)
				if o.Year >= 1990 && o.Year <= 2000 {
					near = true
				}
			}
			c.NonTrivial(switches >= 2 && near)
			c.Class(switches == 0, "no switch")
			c.Class(switches == 1, "one switch")
			c.Class(switches >= 2, "two or more switches")
		},
	})

	// mostly the years the calendar is meant for, and some of any
	farX := func(t *rapid.T) YearXCase {
		if rapid.IntRange(0, 15).Draw(t, "far") == 15 {
			return YearXCase{rapid.OneOf(rapid.IntRange(4001, 20000), rapid.IntRange(-3000, 640), rapid.IntRange(4001, 6000), rapid.IntRange(9990, 10010), rapid.IntRange(-5, 5)).Draw(t, "year"), rapid.Bool().Draw(t, "exceptions")}
		}
		return yearX(641, 4000)(t)
	}
	h.Register(h.Spec[YearXCase]{
		ID: "C06",
		Rule: "every year 641..4000 with the exceptions off and on, plus generated, one in sixteen of -3000..20000; " +
			"the length and Kattika against the reference from 641 on, before that against each other. " +
			"Non-trivial: the year is adhikamasa or adhikavara.",
		Quick: 20000, Thorough: 240000,
		Gen: farX, Sweep: sweepX(641, 4000),
		Check: func(c *h.Ctx, v YearXCase) {
			su.UseExceptions = v.Exc
			s := yr(v.Year)
			n := s.YearLength()
			want := 354
			if v.Year < 641 {
				if s.Is_Adhikamasa() {
					want = 384
				} else if s.Is_Adhikavara() {
					want = 355
				}
			} else if ref.Adhikamasa(v.Year) {
				want = 384
			} else if ref.Adhikavara(v.Year, v.Exc) {
				want = 355
			}
			c.Check(n == want, "lunar year %d has %d days, want %d (exceptions %v)", v.Year, n, want, v.Exc)
			a, b := su.CalculatePreviousKattika(v.Year), su.CalculatePreviousKattika(v.Year+1)
			c.Check(b.Sub(a) == time.Duration(n)*24*time.Hour, "from the Kattika before %d to the next are %v, the year has %d days (exceptions %v)", v.Year, b.Sub(a), n, v.Exc)
			midnight(c, fmt.Sprintf("Kattika before %d", v.Year), a, civilDay(a))
			if v.Year >= 641 {
				midnight(c, fmt.Sprintf("Kattika before %d (exceptions %v)", v.Year, v.Exc), a, ref.Kattika(v.Year, v.Exc))
			}
			if v.Year >= 641 && v.Year <= 4000 {
				c.Check(a.Year() == v.Year-1 && a.Month() >= time.October, "Kattika before %d is %v", v.Year, a)
			}
			c.Class(v.Year < 641, "before 641")
			c.Class(v.Year > 4000, "after 4000")
			c.Points(4)
			c.NonTrivial(n != 354)
			c.Class(n == 384, "adhikamasa")
			c.Class(n == 355, "adhikavara")
			c.Class(v.Exc, "exceptions on")
		},
	})

	h.Register(h.Spec[YearXCase]{
		ID: "C07",
		Rule: "every year 641..4000 with the exceptions off and on, plus generated, one in sixteen of -3000..20000, and the published table; " +
			"Non-trivial: the year is adhikamasa or adhikavara.",
		Quick: 20000, Thorough: 240000,
		Gen: farX, Sweep: sweepX(641, 4000),
		Check: func(c *h.Ctx, v YearXCase) {
			su.UseExceptions = v.Exc
			s := yr(v.Year)
			a := s.AsalhaPuja()
			midnight(c, fmt.Sprintf("Asalha Puja of %d", v.Year), a, civilDay(a))
			days := 236
			if v.Year < 641 {
				if s.Is_Adhikamasa() {
					days = 266
				} else if s.Is_Adhikavara() {
					days = 237
				}
			} else if ref.Adhikamasa(v.Year) {
				days = 266
			} else if ref.Adhikavara(v.Year, v.Exc) {
				days = 237
			}
			if v.Year >= 641 {
				midnight(c, fmt.Sprintf("Asalha Puja of %d (exceptions %v)", v.Year, v.Exc), a, ref.Asalha(v.Year, v.Exc))
			}
			k := su.CalculatePreviousKattika(v.Year)
			c.Check(a.Sub(k) == time.Duration(days)*24*time.Hour, "Asalha Puja of %d is %v after Kattika, want %d days", v.Year, a.Sub(k), days)
			if p, ok := Published[v.Year]; ok && !v.Exc {
				midnight(c, fmt.Sprintf("published Asalha Puja of %d", v.Year), a, p)
				c.Class(true, "published")
			}
			if v.Year >= 1300 && v.Year <= 3000 {
				c.Check(a.Month() >= time.June && a.Month() <= time.August && a.Year() == v.Year, "Asalha Puja of %d is %v", v.Year, a)
			}
			c.Class(v.Year < 641, "before 641")
			c.Class(v.Year > 4000, "after 4000")
			if !v.Exc && v.Year >= 641 && v.Year <= 4000 {
				var d su.SuriyaDay
				hk := int(civilDay(a)-ref.FromCivil(1963, 7, 5)) + ref.HorakhunEpochShift
				d.Init(v.Year, hk-s.Horakhun+s.Tithi)
				c.Check(d.Horakhun == hk, "day %d of %d has horakhun %d, Asalha Puja %d", hk-s.Horakhun+s.Tithi, v.Year, d.Horakhun, hk)
				c.Check(d.Tithi == 14 || d.Tithi == 15, "on Asalha Puja of %d (%v) the tithi is %d", v.Year, a, d.Tithi)
			}
			c.Points(4)
			c.NonTrivial(days != 236)
			c.Class(days == 266, "adhikamasa")
			c.Class(days == 237, "adhikavara")
		},
	})

	type CycleCase struct{ Year int }
	h.Register(h.Spec[CycleCase]{
		ID:    "C22",
		Rule:  "every year -2000..12000 enumerated, plus generated within +-100000 or +-2^45. Non-trivial: a year before 1984 or the first year of a cycle.",
		Quick: 100000, Thorough: 2000000,
		Gen: func(t *rapid.T) CycleCase {
			return CycleCase{rapid.OneOf(years(638, 12000), rapid.IntRange(-100000, 100000), rapid.Map(rapid.Int64Range(-1<<45, 1<<45), func(n int64) int { return int(n) })).Draw(t, "year")}
		},
		Sweep: func(c *h.Ctx, yield func(CycleCase) bool) {
			for y := -2000; y <= 12000; y++ {
				if !yield(CycleCase{y}) {
					return
				}
			}
		},
		Exhaustive: true,
		Check: func(c *h.Ctx, v CycleCase) {
			a, b := yr(v.Year), yr(v.Year+1)
			for _, k := range []struct {
				n         int
				name      string
				got, next int
			}{{57, "57-year", a.AdhikavaraCyclePos(), b.AdhikavaraCyclePos()}, {19, "19-year", a.AdhikamasaCyclePos(), b.AdhikamasaCyclePos()}} {
				want := int(ref.FloorMod(int64(v.Year-1984), int64(k.n))) + 1
				c.Check(k.got == want, "position of %d in the %s cycle is %d, want %d", v.Year, k.name, k.got, want)
				c.Check(k.next == k.got%k.n+1, "positions of %d and %d in the %s cycle are %d and %d", v.Year, v.Year+1, k.name, k.got, k.next)
				c.NonTrivial(k.got == 1)
			}
			inForce(v.Year, func() {
				e := yr(v.Year)
				c.Check(e.AdhikavaraCyclePos() == a.AdhikavaraCyclePos() && e.AdhikamasaCyclePos() == a.AdhikamasaCyclePos(), "%d has other places in the cycles with exceptions in force", v.Year)
			})
			c.Points(6)
			c.NonTrivial(v.Year < 1984)
			c.Class(v.Year < 1414, "before 1414")
		},
	})

	h.Register(h.Spec[YearXCase]{
		ID: "C23",
		Rule: "every year 660..12000 with the exceptions off and on, plus generated. " +
			"Non-trivial: the year itself is adhikamasa or adhikavara.",
		Quick: 100000, Thorough: 2000000,
		Gen:   yearX(660, 12000),
		Sweep: sweepX(660, 12000),
		Check: func(c *h.Ctx, v YearXCase) {
			su.UseExceptions = v.Exc
			s := yr(v.Year)
			dm, dv := 1, 1
			for !ref.Adhikamasa(v.Year - dm) {
				dm++
			}
			for !ref.Adhikavara(v.Year-dv, v.Exc) {
				dv++
			}
			c.Check(s.DeltaAdhikamasa() == dm, "years since the last adhikamasa before %d: %d, want %d", v.Year, s.DeltaAdhikamasa(), dm)
			c.Check(s.DeltaAdhikavara() == dv, "years since the last adhikavara before %d: %d, want %d (exceptions %v)", v.Year, s.DeltaAdhikavara(), dv, v.Exc)
			c.Check(yr(v.Year-dm).Is_Adhikamasa() && yr(v.Year-dv).Is_Adhikavara(), "distances of %d lead to years that are not", v.Year)
			if s.Is_Adhikamasa() {
				c.Check(dm == 2 || dm == 3, "adhikamasa year %d is %d years after the last", v.Year, dm)
			}
			c.Points(3)
			c.NonTrivial(s.Is_Adhikamasa() || s.Is_Adhikavara())
			c.Class(dv >= 7, "seven or more years since adhikavara")
		},
	})
}
