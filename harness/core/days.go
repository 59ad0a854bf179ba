package core

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

type DayCase struct{ Year, Day int }

func day(y, d int) su.SuriyaDay {
	var s su.SuriyaDay
	s.Init(y, d)
	return s
}

func days() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(-30, 420), rapid.IntRange(-30, 40), rapid.IntRange(320, 420), rapid.IntRange(95, 140))
}

func genDay(t *rapid.T) DayCase {
	return DayCase{FarYears(639, 4000).Draw(t, "year"), days().Draw(t, "day")}
}

func sweepDays(c *h.Ctx, yield func(DayCase) bool) {
	for y := 638; y <= 4000; y++ {
		for d := -30; d <= 420; d++ {
			if y == 638 && d < 8 {
				continue
			}
			if !yield(DayCase{y, d}) {
				return
			}
		}
	}
}

// otherName gives the same civil day counted from the neighbouring lunar year,
// when it has a number there in -30..420.
func otherName(v DayCase) (DayCase, bool) {
	a := ref.NewYear(v.Year)
	hk := a.Horakhun + int64(v.Day) - a.Tithi
	for _, y := range []int{v.Year + 1, v.Year - 1} {
		if y < 639 {
			continue
		}
		b := ref.NewYear(y)
		d := hk - b.Horakhun + b.Tithi
		if d >= -30 && d <= 420 {
			return DayCase{y, int(d)}, true
		}
	}
	return DayCase{}, false
}

func dayInts(s su.SuriyaDay) [5]int {
	return [5]int{s.Horakhun, s.Uccabala, s.Avoman, s.Masaken, s.Tithi}
}

// positions near which the floor to a whole arcminute of the sun's correction
// is not decided by the rule alone
func ambiguous(p ref.Position) bool {
	x := 134 * math.Sin(math.Abs(p.MeanSunU-80)*math.Pi/180)
	return math.Abs(x-math.Round(x)) < 1e-6
}

const posTol = 5e-4

// positionDiff compares with the reference procedure; "" when they agree.
func positionDiff(s su.SuriyaDay, p ref.Position) string {
	type q struct {
		n    string
		g, w float64
		m    float64 // circle
	}
	for _, e := range []q{{"mean Sun", s.MeanSun, p.MeanSun, 360}, {"true Sun", s.TrueSun, p.TrueSun, 360}, {"mean Moon", s.MeanMoon, p.MeanMoon, 360},
		{"true Moon", s.TrueMoon, p.TrueMoon, 360}, {"raek", s.Raek, p.Raek, 27}} {
		if math.IsNaN(e.g) || math.IsInf(e.g, 0) {
			return fmt.Sprintf("%s is %v", e.n, e.g)
		}
		tol := posTol
		if ambiguous(p) && e.n != "mean Sun" {
			tol += 1.0 / 60
		}
		if d := ref.Apart(e.g*360/e.m, e.w*360/e.m) * e.m / 360; d > tol {
			return fmt.Sprintf("%s is %.4f, want %.4f", e.n, e.g, e.w)
		}
	}
	return ""
}

func init() {
	h.Register(h.Spec[DayCase]{
		ID: "C18",
		Rule: "days -30..420 of every year 638..4000, and generated up to 12000; all integer elements against the reference " +
			"and against the same day counted from the neighbouring lunar year. Non-trivial: the day has a number in two lunar years, or is a New Year's Day.",
		Quick: 300000, Thorough: 5000000, Gen: genDay, Sweep: sweepDays,
		Check: func(c *h.Ctx, v DayCase) {
			s, y := day(v.Year, v.Day), yr(v.Year)
			r := ref.NewYear(v.Year)
			hk := r.Horakhun + int64(v.Day) - r.Tithi
			e := ref.ElementsOfHorakhun(hk)
			what := fmt.Sprintf("day %d of %d", v.Day, v.Year)
			compare(c, what, []elem{{"CE year", int64(s.Year), r.CE}, {"BE year", int64(s.BE_Year), r.BE}, {"CS year", int64(s.CS_Year), r.CS},
				{"day", int64(s.Day), int64(v.Day)}, {"horakhun", int64(s.Horakhun), hk}, {"uccabala", int64(s.Uccabala), e.Uccabala},
				{"avoman", int64(s.Avoman), e.Avoman}, {"masaken", int64(s.Masaken), e.Masaken}, {"tithi", int64(s.Tithi), e.Tithi},
				{"kammacubala", int64(s.Kammacubala), r.Kammacubala + 800*(hk-r.Horakhun)}})
			var again su.SuriyaDay
			again.Init(v.Year+3, v.Day+17)
			again.Year, again.Day = v.Year, v.Day // what a caller may have set
			again.Init(v.Year, v.Day)
			c.Check(dayInts(again) == dayInts(s) && again.Kammacubala == s.Kammacubala && again.Day == s.Day && again.Year == s.Year, "%s: a variable initialised again differs", what)
			inForce(v.Year, func() {
				t := day(v.Year, v.Day)
				c.Check(dayInts(t) == dayInts(s) && t.Kammacubala == s.Kammacubala && t.Day == s.Day && t.Year == s.Year, "%s has other elements with exceptions in force: %v and %v", what, dayInts(t), dayInts(s))
			})
			c.Points(12)
			if v.Day == int(r.Tithi) {
				c.Class(true, "New Year's Day")
				c.NonTrivial(true)
				c.Check(s.Horakhun == y.Horakhun && s.Kammacubala == y.Kammacubala && s.Uccabala == y.Uccabala && s.Avoman == y.Avoman && s.Masaken == y.Masaken && s.Tithi == y.Tithi,
					"New Year's Day of %d differs from the year: %+v and %+v", v.Year, s, y)
			}
			if o, ok := otherName(v); ok {
				c.Class(true, "named in two years")
				c.NonTrivial(true)
				t := day(o.Year, o.Day)
				c.Check(dayInts(t) == dayInts(s), "%s and day %d of %d are the same day but have elements %v and %v", what, o.Day, o.Year, dayInts(s), dayInts(t))
				c.Check(s.Kammacubala-t.Kammacubala == 292207*(o.Year-v.Year), "%s and day %d of %d: kammacubala %d and %d", what, o.Day, o.Year, s.Kammacubala, t.Kammacubala)
			}
		},
	})

	h.Register(h.Spec[DayCase]{
		ID: "C19",
		Rule: "days -30..420 of every year 638..4000, and generated up to 12000; the five positions against an independent evaluation of the procedure " +
			"(tolerance 0.0005 degrees on the circle). Non-trivial: the day is outside the solar year (before New Year's Day or after its end) or the true Moon is within 5 degrees of 0.",
		Quick: 300000, Thorough: 5000000, Gen: genDay, Sweep: sweepDays,
		Check: func(c *h.Ctx, v DayCase) {
			s := day(v.Year, v.Day)
			p := ref.DayPosition(v.Year, v.Day)
			if m := positionDiff(s, p); m != "" {
				c.Failf("day %d of %d: %s", v.Day, v.Year, m)
			}
			var again su.SuriyaDay
			again.Init(v.Year+1, v.Day-20)
			again.Year, again.Day, again.Horakhun = v.Year, v.Day, s.Horakhun // what a caller may have set
			again.Init(v.Year, v.Day)
			c.Check(reflect.DeepEqual(again, s), "day %d of %d: a variable initialised again differs", v.Day, v.Year)
			inForce(v.Year, func() {
				if m := positionDiff(day(v.Year, v.Day), p); m != "" {
					c.Failf("day %d of %d with exceptions in force: %s", v.Day, v.Year, m)
				}
			})
			c.Points(11)
			out := p.MeanSunU < 0 || p.MeanSunU >= 360
			c.NonTrivial(out || ref.Apart(p.TrueMoon, 0) < 5)
			c.Class(p.MeanSunU < 0, "before the solar year")
			c.Class(p.MeanSunU >= 360, "after the solar year")
			c.Class(ref.Apart(p.TrueMoon, 0) < 5, "Moon near 0")
			c.Class(p.MeanSunU > 80 && !out, "Sun past 80")
		},
	})

	h.Register(h.Spec[DayCase]{
		ID: "C20",
		Rule: "days -30..420 of every year 638..4000, and generated up to 12000, each with the following day and with its number in the neighbouring year. " +
			"Non-trivial: some position crosses 0 to the next day or the day has two numbers.",
		Quick: 300000, Thorough: 5000000, Gen: genDay, Sweep: sweepDays,
		Check: func(c *h.Ctx, v DayCase) {
			a, b := day(v.Year, v.Day), day(v.Year, v.Day+1)
			what := fmt.Sprintf("day %d of %d", v.Day, v.Year)
			var ea, eb su.SuriyaDay
			inForce(v.Year, func() { ea, eb = day(v.Year, v.Day), day(v.Year, v.Day+1) })
			c.Check(ea == a && eb == b, "%s has other positions with exceptions in force", what)
			for _, e := range []struct {
				n string
				p float64
			}{{"mean Sun", a.MeanSun}, {"true Sun", a.TrueSun}, {"mean Moon", a.MeanMoon}, {"true Moon", a.TrueMoon}} {
				c.Check(e.p >= 0 && e.p < 360, "%s: %s is at %v degrees", what, e.n, e.p)
			}
			c.Check(a.Raek >= 1 && a.Raek < 28.0005, "%s: raek is %v", what, a.Raek)
			c.Check(ref.Apart(a.TrueSun, a.MeanSun) <= 134.0/60+0.001, "%s: mean Sun %v, true Sun %v", what, a.MeanSun, a.TrueSun)
			c.Check(ref.Apart(a.TrueMoon, a.MeanMoon) <= 296.0/60+0.001, "%s: mean Moon %v, true Moon %v", what, a.MeanMoon, a.TrueMoon)
			c.Check(math.Abs((a.Raek-1)*800/60-a.TrueMoon) < 0.003, "%s: raek %v does not go with the true Moon at %v", what, a.Raek, a.TrueMoon)
			ms, ts := ref.Diff(b.MeanSun, a.MeanSun), ref.Diff(b.TrueSun, a.TrueSun)
			c.Check(ms > 0.95 && ms < 1.02, "%s: the mean Sun moves by %.4f to the next day", what, ms)
			c.Check(ts > 0.92 && ts < 1.06, "%s: the true Sun moves by %.4f to the next day (%v, %v)", what, ts, a.TrueSun, b.TrueSun)
			tm := ref.Circle(b.TrueMoon - a.TrueMoon)
			c.Check(tm > 11 && tm < 16, "%s: the true Moon moves by %.4f to the next day (%v, %v)", what, tm, a.TrueMoon, b.TrueMoon)
			el := ref.Diff(a.TrueMoon-a.TrueSun, 12*float64(a.Tithi))
			c.Check(el > -18 && el < 18, "%s: tithi %d, but the Moon at %v is %.2f ahead of the Sun at %v", what, a.Tithi, a.TrueMoon, ref.Circle(a.TrueMoon-a.TrueSun), a.TrueSun)
			c.Points(10)
			c.NonTrivial(b.TrueMoon < a.TrueMoon || b.MeanSun < a.MeanSun)
			c.Class(b.TrueMoon < a.TrueMoon, "Moon crosses 0")
			c.Class(b.MeanSun < a.MeanSun, "Sun crosses 0")
			if o, ok := otherName(v); ok {
				t := day(o.Year, o.Day)
				c.Class(true, "named in two years")
				c.NonTrivial(true)
				c.Check(ref.Apart(t.MeanSun, a.MeanSun) < 0.02, "%s and day %d of %d: mean Sun %v and %v", what, o.Day, o.Year, a.MeanSun, t.MeanSun)
				if ref.Apart(t.TrueSun, a.TrueSun) > 0.04 || ref.Apart(t.MeanMoon, a.MeanMoon) > 0.04 || ref.Apart(t.TrueMoon, a.TrueMoon) > 0.05 {
					// explained by the sign of the documented correction alone?
					if positionDiff(a, ref.DayPosition(v.Year, v.Day)) == "" && positionDiff(t, ref.DayPosition(o.Year, o.Day)) == "" {
						c.KnownOrFail("sun-correction-sign", "%s and day %d of %d are the same day but the true Sun is %v and %v", what, o.Day, o.Year, a.TrueSun, t.TrueSun)
					} else {
						c.Failf("%s and day %d of %d are the same day but the positions are %+v and %+v", what, o.Day, o.Year, a, t)
					}
				}
			}
		},
	})

	type HorakhunCase struct{ Horakhun int64 }
	const step = 290 * 356
	h.Register(h.Spec[HorakhunCase]{
		ID: "C17",
		Rule: "every horakhun -300000..1500000, three days around each of the +-45 long-distance steps and around +-1e9, 2^31, 2^32 and 2^33, and generated within +-60,000,000. " +
			"Non-trivial: further than one long step from the epoch.",
		Quick: 400000, Thorough: 8000000,
		Gen: func(t *rapid.T) HorakhunCase {
			return HorakhunCase{rapid.OneOf(rapid.Int64Range(-5000000, 5000000), rapid.Int64Range(-200000, 1200000), rapid.Int64Range(-60000000, 60000000), rapid.Custom(func(t *rapid.T) int64 {
				return 484049 + rapid.Int64Range(-50, 50).Draw(t, "steps")*rapid.SampledFrom([]int64{step, 290 * 365, 106751, 105916, 365 * 290, 146097, 36524}).Draw(t, "unit") + rapid.Int64Range(-3, 3).Draw(t, "off")
			})).Draw(t, "horakhun")}
		},
		Sweep: func(c *h.Ctx, yield func(HorakhunCase) bool) {
			for k := int64(-45); k <= 45; k++ {
				for d := int64(-3); d <= 3; d++ {
					if !yield(HorakhunCase{484049 + k*step + d}) {
						return
					}
				}
			}
			for _, far := range []int64{1 << 31, 1 << 32, 1 << 33, 1e9} {
				for d := int64(-2); d <= 2; d++ {
					for _, n := range []int64{far + d, -far + d, 484049 + far + d, 484049 - far + d} {
						if !yield(HorakhunCase{n}) {
							return
						}
					}
				}
			}
			for d := int64(-300000); d <= 1500000; d++ {
				if !yield(HorakhunCase{d}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v HorakhunCase) {
			t := su.HorakhunToDate(v.Horakhun)
			d := ref.DayOfHorakhun(v.Horakhun)
			y, m, dd := d.Civil()
			c.Check(t.Year() == y && int(t.Month()) == m && t.Day() == dd, "horakhun %d is %v, want %d-%02d-%02d", v.Horakhun, t, y, m, dd)
			c.Check(t.Unix() == d.Unix()+86399 && t.Nanosecond() == 0 && t.Hour() == 23 && t.Minute() == 59 && t.Second() == 59, "horakhun %d is %v, not 23:59:59 UTC", v.Horakhun, t)
			_, off := t.Zone()
			c.Check(off == 0, "horakhun %d is in zone %v", v.Horakhun, t)
			su.UseExceptions = true
			again := su.HorakhunToDate(v.Horakhun)
			su.UseExceptions = false
			c.Check(again == t, "horakhun %d is %v, with the exceptions on %v", v.Horakhun, t, again)
			c.Points(4)
			far := v.Horakhun - 484049
			c.NonTrivial(far > step || far < -step)
			c.Class(far > step, "after the first step")
			c.Class(far < -step, "before the first step")
			c.Class(far%step == 0, "on a step")
		},
	})

	// Angles are whole nanodegrees, so every oracle below is exact or has a
	// tolerance far above the floating-point error.
	type AngleCase struct {
		Nano    int64 // angle in 1e-9 degrees
		Ulps    int   `json:",omitempty"` // and that many of the smallest steps from it
		Big     int64 `json:",omitempty"` // or, if not 0, angle in 64ths of a degree
		X, Y, Z int
	}
	ralString := regexp.MustCompile(`^(-?\d+):(-?\d+)°(-?\d+)'$`)
	h.Register(h.Spec[AngleCase]{
		ID: "C21", AnySwitch: true,
		Rule: "every whole arcminute of -720..720 degrees and every half arcminute within +-30 of them, plus generated angles within +-1e6 degrees (multiples of 1e-9, with clusters at multiples of 1, 30 and 360 degrees) or +-1.7e10 degrees (64ths) and triples. " +
			"Non-trivial: the angle is negative or over 360.",
		Quick: 500000, Thorough: 8000000,
		Gen: func(t *rapid.T) AngleCase {
			lim := int64(1e15)
			near := rapid.Custom(func(t *rapid.T) int64 {
				u := rapid.SampledFrom([]int64{1e9, 30e9, 360e9, 180e9}).Draw(t, "unit")
				return rapid.Int64Range(-2000, 2000).Draw(t, "k")*u + rapid.SampledFrom([]int64{-1, 0, 1, -100000, 100000, -16666667, 16666667}).Draw(t, "off")
			})
			big := int64(0)
			if rapid.IntRange(0, 9).Draw(t, "far") == 0 {
				big = rapid.OneOf(rapid.Int64Range(-1<<40, 1<<40), rapid.Map(rapid.Int64Range(-1<<25, 1<<25), func(n int64) int64 { return n * 64 * 360 })).Draw(t, "64ths")
			}
			return AngleCase{
				Big:  big,
				Nano: rapid.OneOf(rapid.Int64Range(-lim, lim), rapid.Int64Range(-720e9, 720e9), near).Draw(t, "nano"),
				Ulps: rapid.OneOf(rapid.Just(0), rapid.IntRange(-3, 3), rapid.IntRange(-5000, 5000)).Draw(t, "ulps"),
				X:    rapid.IntRange(-40, 40).Draw(t, "x"), Y: rapid.IntRange(0, 29).Draw(t, "y"), Z: rapid.IntRange(0, 59).Draw(t, "z"),
			}
		},
		Sweep: func(c *h.Ctx, yield func(AngleCase) bool) {
			for m := int64(-720 * 60); m <= 720*60; m++ {
				u := m + 720*60*10
				v := AngleCase{Nano: m*1e9/60 + 3, X: int(ref.FloorMod(u/1800, 30)) - 12, Y: int(u % 1800 / 60), Z: int(u % 60)}
				if !yield(v) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v AngleCase) {
			deg := float64(v.Nano) / 1e9
			if v.Big != 0 {
				farAngle(c, v.Big, ralString)
				return
			}
			for i := 0; i < v.Ulps; i++ {
				deg = math.Nextafter(deg, math.Inf(1))
			}
			for i := 0; i > v.Ulps; i-- {
				deg = math.Nextafter(deg, math.Inf(-1))
			}
			x, y, z := su.DegreeToRal(deg)
			whole := int64(math.Floor(deg))
			frac := min(int64(math.Floor((deg-math.Floor(deg))*1e9)), 1e9-1)
			if v.Ulps == 0 {
				whole = (v.Nano - ref.FloorMod(v.Nano, 1e9)) / 1e9
				frac = ref.FloorMod(v.Nano, 1e9)
			}
			c.Check(y >= 0 && y <= 29 && z >= 0 && z <= 59, "%v degrees split to %d:%d:%d", deg, x, y, z)
			c.Check(int64(30*x+y) == whole, "%v degrees split to %d:%d:%d, whole degrees are %d", deg, x, y, z, whole)
			// whole arcminutes, except that a fraction within rounding of one may fall on either side
			lo, hi := (frac-2)*60/1e9, (frac+2)*60/1e9
			if frac < 2 {
				lo = 0
			}
			if hi > 59 {
				hi = 59
			}
			if big := v.Nano > 1e13 || v.Nano < -1e13; big { // float64 spacing is 1e-10 degrees there
				lo, hi = (frac-200)*60/1e9, min(59, (frac+200)*60/1e9)
				if frac < 200 {
					lo = 0
				}
			}
			c.Check(int64(z) >= lo && int64(z) <= hi, "%v degrees split to %d:%d:%d, arcminutes are %d", deg, x, y, z, frac*60/1e9)
			back := su.RalToDegree(x, y, z)
			d := deg - back
			c.Check(d > -1e-6 && d < 1.0/60+0.00011, "%v degrees split to %d:%d:%d and joined give %v", deg, x, y, z, back)
			m := ralString.FindStringSubmatch(su.DegreeToRalString(deg))
			c.Check(m != nil && m[1] == strconv.Itoa(x) && m[2] == strconv.Itoa(y) && m[3] == strconv.Itoa(z), "%v degrees are %d:%d:%d but read %q", deg, x, y, z, su.DegreeToRalString(deg))

			n := su.NormalizeDegree(deg)
			c.Check(n >= 0 && n < 360, "%v degrees normalise to %v", deg, n)
			c.Check(ref.Apart(n, deg) < 1e-6, "%v degrees normalise to %v, another place", deg, n)
			if deg >= 0 && deg < 360 {
				c.Check(n == deg, "%v degrees normalise to %v", deg, n)
			}
			c.Check(su.NormalizeDegree(n) == n, "normalising %v again gives %v", n, su.NormalizeDegree(n))

			j := su.RalToDegree(v.X, v.Y, v.Z)
			exact := float64(v.X*1800+v.Y*60+v.Z) / 60
			c.Check(exact-j > -1e-7 && exact-j < 0.000101, "%d:%d:%d joins to %v, want %v", v.X, v.Y, v.Z, j, exact)
			x2, y2, z2 := su.DegreeToRal(j)
			lost := (v.X*1800 + v.Y*60 + v.Z) - (x2*1800 + y2*60 + z2)
			c.Check(lost == 0 || lost == 1, "%d:%d:%d joins to %v and splits to %d:%d:%d", v.X, v.Y, v.Z, j, x2, y2, z2)
			c.Check(su.RalToDegree(v.X, v.Y, v.Z+1) > j, "%d:%d:%d and the next arcminute join to %v and %v", v.X, v.Y, v.Z, j, su.RalToDegree(v.X, v.Y, v.Z+1))
			c.Check(math.Abs(su.RalToDegree(v.X, v.Y, v.Z-3)-(exact-0.05)) < 0.00011, "%d:%d:%d less 3 arcminutes joins to %v", v.X, v.Y, v.Z, su.RalToDegree(v.X, v.Y, v.Z-3))
			c.Points(13)
			c.NonTrivial(deg < 0 || deg > 360)
			c.Class(deg < 0, "negative")
			c.Class(deg > 360, "over a circle")
			c.Class(frac == 0, "whole degrees")
		},
	})
}

// farAngle is what holds of an angle of n 64ths of a degree, all of it exact.
func farAngle(c *h.Ctx, n int64, ralString *regexp.Regexp) {
	deg := float64(n) / 64
	rem := ref.FloorMod(n, 64)
	whole := (n - rem) / 64
	x, y, z := su.DegreeToRal(deg)
	c.Check(y >= 0 && y <= 29 && int64(x)*30+int64(y) == whole && int64(z) == rem*60/64, "%v degrees split to %d:%d:%d, are %d whole degrees and %d arcminutes", deg, x, y, z, whole, rem*60/64)
	d := deg - su.RalToDegree(x, y, z)
	c.Check(d > -1e-5 && d < 1.0/60+0.00011, "%v degrees split to %d:%d:%d and joined give %v", deg, x, y, z, su.RalToDegree(x, y, z))
	m := ralString.FindStringSubmatch(su.DegreeToRalString(deg))
	c.Check(m != nil && m[1] == strconv.Itoa(x) && m[2] == strconv.Itoa(y) && m[3] == strconv.Itoa(z), "%v degrees are %d:%d:%d but read %q", deg, x, y, z, su.DegreeToRalString(deg))
	at := float64(ref.FloorMod(n, 360*64)) / 64
	c.Check(su.NormalizeDegree(deg) == at, "%v degrees normalise to %v, want %v", deg, su.NormalizeDegree(deg), at)
	c.Points(4)
	c.NonTrivial(true)
	c.Class(true, "far from the circle")
}
