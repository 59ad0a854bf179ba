package full

import (
	"fmt"
	"reflect"
	"time"
	_ "time/tzdata"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/core"
	"verif/h"
	"verif/ref"
)

// Instant is a time as given by a caller, in some timezone.
type Instant struct {
	Unix int64
	Nano int64
	Zone int    // seconds east of UTC
	Loc  string `json:",omitempty"` // or a named timezone, with summer time
}

func (i Instant) Time() time.Time {
	t := time.Unix(i.Unix, i.Nano)
	if i.Loc == "nameless" { // as a decoded date has it
		return t.In(time.FixedZone("", i.Zone))
	}
	if i.Loc == "Local" { // under the name that the local timezone has
		if i.Zone%1800 != 0 {
			return t.In(time.Local)
		}
		return t.In(time.FixedZone("Local", i.Zone))
	}
	if i.Loc != "" {
		l, err := time.LoadLocation(i.Loc)
		if err != nil {
			h.Fatal("%v", err)
		}
		return t.In(l)
	}
	if i.Zone == 0 {
		return t.UTC()
	}
	return t.In(time.FixedZone(fmt.Sprintf("zone%+d", i.Zone), i.Zone))
}

func genZone() *rapid.Generator[int] {
	return rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{7 * 3600, -5 * 3600, 14 * 3600, -12 * 3600, 5*3600 + 1800, 20700, 23400}),
		rapid.Map(rapid.IntRange(-14*60, 14*60), func(m int) int { return m * 60 }))
}

// genPlace gives the instant a timezone.
func genPlace(t *rapid.T, i *Instant, name string) {
	// before 1972 places have offsets with seconds, which no date format carries
	if i.Unix > 2*31556952 && rapid.IntRange(0, 5).Draw(t, name+" named") == 0 {
		i.Loc = rapid.SampledFrom([]string{"Europe/London", "America/New_York", "Australia/Lord_Howe", "Asia/Bangkok", "Pacific/Apia"}).Draw(t, name+" place")
		return
	}
	i.Zone = genZone().Draw(t, name+" zone")
}

// genInstant draws times near what matters: events, recorded moons, starts of
// days and years, and any second.
func genInstant(t *rapid.T, name string, y int) Instant {
	var at int64
	switch rapid.IntRange(0, 5).Draw(t, name+" kind") {
	case 0:
		at = ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(-1, 1).Draw(t, name+" day"))*86400
	case 1:
		es := ref.SolarYear(y, false)
		at = es[rapid.IntRange(0, len(es)-1).Draw(t, name+" event")].Day.Unix()
	case 2:
		ms := diskAstro()[y]
		if len(ms) == 0 {
			at = ref.FromCivil(y, rapid.IntRange(1, 12).Draw(t, name+" month"), 1).Unix()
		} else {
			at = ms[rapid.IntRange(0, len(ms)-1).Draw(t, name+" moon")].DateTimeISO.Unix()
		}
	case 3:
		at = ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(0, 365).Draw(t, name+" day"))*86400
	case 4:
		at = ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(0, 366*86400-1).Draw(t, name+" second"))
	case 5: // the last days and the first
		at = ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(-8*86400, 8*86400).Draw(t, name+" second"))
	}
	i := Instant{Unix: at + int64(rapid.SampledFrom([]int{0, 0, 0, 1, -1, 43200}).Draw(t, name+" shift"))}
	if rapid.IntRange(0, 5).Draw(t, name+" sub") == 0 {
		i.Nano = int64(rapid.SampledFrom([]int{1, 999999999, 500000000}).Draw(t, name+" nano"))
	}
	genPlace(t, &i, name)
	return i
}

func astroYears() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(1896, 2044), rapid.IntRange(1896, 2044), rapid.SampledFrom([]int{1899, 1901, 1902, 1969, 1970, 1971, 2033, 2034, 2040, 2041}), core.Years(645, 3995))
}

type RangeCase struct {
	From, To Instant
	Exc      bool
}

func genRange(maxYears int) func(t *rapid.T) RangeCase {
	return func(t *rapid.T) RangeCase {
		y := astroYears().Draw(t, "year")
		a := genInstant(t, "from", y)
		var b Instant
		switch rapid.IntRange(0, 7).Draw(t, "length") {
		case 0, 1, 2:
			b = genInstant(t, "to", y)
		case 3, 4:
			b = genInstant(t, "to", y+1)
		case 5:
			n := maxYears
			if rapid.IntRange(0, 19).Draw(t, "long") == 19 {
				n = 3995 - y
			}
			b = genInstant(t, "to", y+rapid.IntRange(0, n).Draw(t, "years"))
		case 6: // days
			b = Instant{Unix: a.Unix + int64(rapid.IntRange(0, 40).Draw(t, "days"))*86400 + int64(rapid.IntRange(-1, 1).Draw(t, "seconds")), Nano: a.Nano, Zone: genZone().Draw(t, "zone")}
		case 7: // the same instant
			b = Instant{Unix: a.Unix, Nano: a.Nano, Zone: genZone().Draw(t, "zone")}
		}
		if b.Time().Before(a.Time()) && rapid.IntRange(0, 9).Draw(t, "reversed") != 0 {
			a, b = b, a
		}
		return RangeCase{a, b, rapid.Bool().Draw(t, "exceptions")}
	}
}

// sweepRanges gives whole years, decades and single days.
func sweepRanges(c *h.Ctx, yield func(RangeCase) bool) {
	day := func(y, m, d, s int) Instant { return Instant{Unix: ref.FromCivil(y, m, d).Unix() + int64(s)} }
	for y := 642; y <= 3999; y++ {
		if !yield(RangeCase{day(y, 1, 1, 0), day(y, 12, 31, 86399), false}) || !yield(RangeCase{day(y, 1, 1, 0), day(y, 12, 31, 86399), true}) {
			return
		}
	}
	for y := 1890; y <= 2050; y += 10 {
		if !yield(RangeCase{day(y, 1, 1, 0), day(y+11, 12, 31, 0), true}) {
			return
		}
	}
	// from every day of a year and to every day of a year
	for i, y := range []int{1904, 1996, 2013, 2016, 3572} {
		for d := 0; d < 366; d++ {
			u, exc := day(y, 1, 1, 0).Unix+int64(d)*86400, (d+i)%2 == 0
			t := Instant{Unix: u + int64(d*7919%86400)}
			if !yield(RangeCase{t, Instant{Unix: u + 86400*17}, exc}) || !yield(RangeCase{Instant{Unix: u - 86400*17}, t, exc}) {
				return
			}
		}
	}
	// of every number of days
	for n := 0; n <= 1500; n++ {
		u := day(1995+n%7, n%12+1, n%28+1, 0).Unix
		if !yield(RangeCase{Instant{Unix: u}, Instant{Unix: u + int64(n)*86400 - int64(n%2)}, n%3 == 0}) {
			return
		}
	}
	// long ones
	for _, r := range [][2]int{{1800, 1960}, {1500, 1650}, {1890, 2050}, {3000, 3130}} {
		if !yield(RangeCase{day(r[0], 3, 5, 0), day(r[1], 9, 7, 0), false}) {
			return
		}
	}
	// the whole of the calendar
	for _, exc := range []bool{false, true} {
		if !yield(RangeCase{day(645, 1, 1, 0), day(3995, 12, 31, 86399), exc}) || !yield(RangeCase{day(901, 7, 3, 7), day(2702, 2, 28, 0), exc}) {
			return
		}
	}
	// every event of a year queried alone, and the second before and after
	for _, y := range []int{1910, 1970, 1994, 1997, 2015, 2033, 3572} {
		var at []int64
		for _, e := range ref.SolarYear(y, false) {
			at = append(at, e.Day.Unix())
		}
		for _, r := range diskAstro()[y] {
			at = append(at, r.DateTimeISO.Unix())
		}
		for _, u := range at {
			for d := int64(-1); d <= 1; d++ {
				if !yield(RangeCase{Instant{Unix: u}, Instant{Unix: u + d}, false}) || !yield(RangeCase{Instant{Unix: u + d}, Instant{Unix: u + 86399}, false}) {
					return
				}
			}
		}
	}
}

func utcDay(t time.Time) string { return t.UTC().Format("2006-01-02") }

func init() {
	h.Register(h.Spec[RangeCase]{
		ID: "C12",
		Rule: "ranges whose ends are at, next to or away from events, recorded moons, starts of days and years, 0 days to 12 years long, some up to centuries (one in ten of the reversed ones left reversed), in any timezone, exceptions on or off; plus a sweep of whole years, decades, half months from and to every day of five years, lengths to 1500 days, and single instants. " +
			"The result against the reference calendar and the data files. Non-trivial: the range holds a recorded moon and a calendar event and runs over a year end or a day holding both.",
		Quick: 8000, Thorough: 160000, Gen: genRange(12), Sweep: sweepRanges,
		Check: func(c *h.Ctx, v RangeCase) {
			su.UseExceptions = v.Exc
			from, to := v.From.Time(), v.To.Time()
			f0, t0 := from, to
			days := su.GetCalDays(from, to)
			c.Check(reflect.DeepEqual(from, f0) && reflect.DeepEqual(to, t0), "the arguments changed")
			astro, cal := astroRange(from, to), refRange(from, to, v.Exc)
			want := append(append([]string{}, astro...), cal...)
			if d := diff(flatten(days), want); d != "" {
				c.Failf("%v to %v (exceptions %v): %s", from, to, v.Exc, d)
			}
			both := false
			for i, d := range days {
				text := flattenDay(d)
				c.Check(len(text) > 0, "the entry of %v is empty", d.Date)
				c.Check(d.Date.Location() == time.UTC, "the entry of %v is not in UTC", d.Date)
				if i > 0 {
					c.Check(utcDay(days[i-1].Date) < utcDay(d.Date), "entry %v comes after %v", d.Date, days[i-1].Date)
				}
				on := func(t time.Time) {
					c.Check(utcDay(t) == utcDay(d.Date), "the entry of %v holds an event of %v", d.Date, t)
					c.Check(t.Location() == time.UTC, "the event of %v is not in UTC", t)
				}
				for _, m := range d.UposathaMoon {
					on(m.Date)
				}
				for _, m := range d.HalfMoon {
					on(m.Date)
				}
				for _, m := range d.AstroMoon {
					on(m.Date)
				}
				for _, m := range d.MajorEvents {
					on(m.Date)
				}
				c.Check(len(d.UposathaMoon) <= 1 && len(d.HalfMoon) <= 1 && len(d.AstroMoon) <= 1, "the entry of %v has several moons of a kind", d.Date)
				both = both || (len(d.AstroMoon) > 0 && len(d.UposathaMoon)+len(d.HalfMoon)+len(d.MajorEvents) > 0)
			}
			c.Points(len(want))
			c.NonTrivial(len(astro) > 0 && len(cal) > 0 && (both || from.UTC().Year() != to.UTC().Year()))
			c.Class(from.UTC().Year() != to.UTC().Year(), "over a year end")
			c.Class(both, "day with a recorded moon and an event")
			c.Class(to.Before(from), "reversed")
			c.Class(v.From.Zone != v.To.Zone, "two timezones")
			c.Class(len(want) == 0, "empty result")
			c.Class(len(astro) == 0 && len(cal) > 0, "no recorded moons")
		},
	})

	type Split struct {
		A, B, C Instant
		Zones   [3]int
		Exc     bool
	}
	filter := func(ds []su.CalDay, keep func(t time.Time) bool) (out []string) {
		for _, d := range ds {
			for _, m := range d.UposathaMoon {
				if keep(m.Date) {
					out = append(out, eventText(m))
				}
			}
			for _, m := range d.HalfMoon {
				if keep(m.Date) {
					out = append(out, eventText(m))
				}
			}
			for _, m := range d.AstroMoon {
				if keep(m.Date) {
					out = append(out, eventText(m))
				}
			}
			for _, m := range d.MajorEvents {
				if keep(m.Date) {
					out = append(out, eventText(m))
				}
			}
			for _, m := range d.Events {
				if keep(m.Date) {
					out = append(out, eventText(m))
				}
			}
		}
		return
	}
	h.Register(h.Spec[Split]{
		ID: "C13",
		Rule: "three times as in C12, in order, up to 8 years apart, and other timezones for them: whole range, its two parts, and the same instants in the other timezones, for the calendar days and for the recorded moons. " +
			"Non-trivial: both parts have events and one is at the splitting time, or the parts are in different years.",
		Quick: 10000, Thorough: 90000,
		Gen: func(t *rapid.T) Split {
			r := genRange(8)(t)
			a, b := r.From, r.To
			if b.Time().Before(a.Time()) {
				a, b = b, a
			}
			y := a.Time().UTC().Year()
			if n := b.Time().UTC().Year() - y; n > 0 {
				y += rapid.IntRange(0, n).Draw(t, "split year")
			}
			m := genInstant(t, "split", y)
			if m.Time().Before(a.Time()) {
				a, m = m, a
			}
			if b.Time().Before(m.Time()) {
				b, m = m, b
			}
			return Split{a, m, b, [3]int{genZone().Draw(t, "z1"), genZone().Draw(t, "z2"), genZone().Draw(t, "z3")}, r.Exc}
		},
		Check: func(c *h.Ctx, v Split) {
			su.UseExceptions = v.Exc
			A, B, C := v.A.Time(), v.B.Time(), v.C.Time()
			whole, first, second := su.GetCalDays(A, C), su.GetCalDays(A, B), su.GetCalDays(B, C)
			atB := filter(whole, func(t time.Time) bool { return t.Equal(B) })
			if d := diff(append(flatten(first), flatten(second)...), append(flatten(whole), atB...)); d != "" {
				c.Failf("%v to %v split at %v: the parts against the whole: %s", A, C, B, d)
			}
			if d := diff(flatten(first), filter(whole, func(t time.Time) bool { return !t.After(B) })); d != "" {
				c.Failf("%v to %v against that part of the range to %v: %s", A, B, C, d)
			}
			if d := diff(flatten(second), filter(whole, func(t time.Time) bool { return !t.Before(B) })); d != "" {
				c.Failf("%v to %v against that part of the range from %v: %s", B, C, A, d)
			}
			// a day that is all within a part has the same entry in it
			entry := map[string]su.CalDay{}
			for _, d := range whole {
				entry[utcDay(d.Date)] = d
			}
			for i, part := range [][]su.CalDay{first, second} {
				for _, d := range part {
					t := d.Date.UTC()
					start := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
					if i == 0 && start.Add(24*time.Hour).After(B) || i == 1 && start.Before(B) {
						continue
					}
					c.Check(reflect.DeepEqual(d, entry[utcDay(t)]), "the entry of %v is not the same in %v to %v, split at %v", t, A, C, B)
				}
			}
			moons := func(ms []su.AstroMoon) (out []string) {
				for _, m := range ms {
					out = append(out, eventText(m))
				}
				return
			}
			mw, m1, m2 := su.GetAstroMoons(A, C), su.GetAstroMoons(A, B), su.GetAstroMoons(B, C)
			if n := len(m1); n > 0 && len(m2) > 0 && m1[n-1].Date.Equal(B) {
				m1 = m1[:n-1]
			}
			c.Check(fmt.Sprint(moons(mw)) == fmt.Sprint(append(moons(m1), moons(m2)...)), "recorded moons %v to %v split at %v: %s", A, C, B, diff(append(moons(m1), moons(m2)...), moons(mw)))
			in := func(i Instant, z int) time.Time { i.Zone, i.Loc = z, ""; return i.Time() }
			A2, B2, C2 := in(v.A, v.Zones[0]), in(v.B, v.Zones[1]), in(v.C, v.Zones[2])
			c.Check(reflect.DeepEqual(su.GetCalDays(A2, C2), whole), "%v to %v is not the same as %v to %v", A2, C2, A, C)
			c.Check(reflect.DeepEqual(su.GetCalDays(A2, B2), first), "%v to %v is not the same as %v to %v", A2, B2, A, B)
			c.Check(reflect.DeepEqual(su.GetAstroMoons(A2, C2), mw), "recorded moons %v to %v are not the same as %v to %v", A2, C2, A, C)
			c.Points(len(whole) * 5)
			c.NonTrivial(len(first) > 0 && len(second) > 0 && (len(atB) > 0 || A.UTC().Year() != C.UTC().Year()))
			c.Class(len(atB) > 0, "an event at the split")
			c.Class(A.UTC().Year() != C.UTC().Year(), "over a year end")
			c.Class(len(mw) > 0, "recorded moons")
		},
	})

	h.Register(h.Spec[RangeCase]{
		ID: "C14", AnySwitch: true,
		Rule: "ranges as in C12 up to 150 years long, also all of the data and far outside of it: the moons in order against an own reading of the data files. " +
			"Non-trivial: at least one moon and an end at a moon or a second from it, or a year without data inside.",
		Quick: 40000, Thorough: 600000,
		Gen: func(t *rapid.T) RangeCase {
			v := genRange(150)(t)
			v.Exc = false
			return v
		},
		Sweep: func(c *h.Ctx, yield func(RangeCase) bool) {
			sec := func(y int) int64 { return ref.FromCivil(y, 1, 1).Unix() }
			for y := 1850; y <= 2100; y++ {
				if !yield(RangeCase{Instant{Unix: sec(y)}, Instant{Unix: sec(y+1) - 1}, false}) || !yield(RangeCase{Instant{Unix: sec(y) - 86400*8}, Instant{Unix: sec(y+1) + 86400*8}, false}) {
					return
				}
			}
			if !yield(RangeCase{Instant{Unix: sec(1000)}, Instant{Unix: sec(3000)}, false}) {
				return
			}
			sweepRanges(c, yield)
		},
		Check: func(c *h.Ctx, v RangeCase) {
			from, to := v.From.Time(), v.To.Time()
			got := su.GetAstroMoons(from, to)
			var gt []string
			for _, m := range got {
				c.Check(m.Date.Location() == time.UTC, "%v is not in UTC", m.Date)
				gt = append(gt, eventText(m))
			}
			want := astroRange(from, to)
			if d := diff(gt, want); d != "" {
				c.Failf("%v to %v: %s", from, to, d)
			}
			c.Check(fmt.Sprint(gt) == fmt.Sprint(want), "%v to %v: not in the order of time", from, to)
			c.Points(len(want))
			edge, empty := false, false
			for _, m := range got {
				for _, e := range []time.Time{from, to} {
					d := m.Date.Sub(e)
					edge = edge || (d <= time.Second && d >= -time.Second)
				}
			}
			for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
				empty = empty || len(diskAstro()[y]) == 0
			}
			c.NonTrivial(len(got) > 0 && (edge || empty))
			c.Class(edge, "moon at an end")
			c.Class(empty && len(got) > 0, "a year without data inside")
			c.Class(to.Before(from), "reversed")
			c.Class(len(got) > 100, "over 100 moons")
		},
	})
}
