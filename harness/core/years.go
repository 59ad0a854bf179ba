// Package core holds the properties of the calendar arithmetic, the day
// positions, the notation helpers and the embedded assets.
package core

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func yr(y int) su.SuriyaYear {
	var s su.SuriyaYear
	s.Init(y)
	return s
}

func init() { h.Switch = func(on bool) { su.UseExceptions = on } }

// Reset puts the global state of the code under test back.
func Reset() {
	su.UseExceptions = false
	su.AdhikavaraExceptions = map[int]bool{}
	for y, v := range usualExceptions {
		su.AdhikavaraExceptions[y] = v
	}
	ref.SetTable(nil)
}

// inForce does something with the exceptions on, the usual ones and ones of the
// years around y that say otherwise than the rules.
func inForce(y int, f func()) {
	var own [3]int
	n := 0
	for k := y - 1; k <= y+1; k++ {
		if _, usual := usualExceptions[k]; !usual && k > 640 && !ref.Adhikamasa(k) {
			su.AdhikavaraExceptions[k] = !ref.Adhikavara(k, false)
			own[n] = k
			n++
		}
	}
	su.UseExceptions = true
	f()
	su.UseExceptions = false
	for _, k := range own[:n] {
		delete(su.AdhikavaraExceptions, k)
	}
}

// usualExceptions is the table as the library has it when the process starts.
var usualExceptions = func() map[int]bool {
	m := map[int]bool{}
	for y, v := range su.AdhikavaraExceptions {
		m[y] = v
	}
	return m
}()

// years draws years over a range, favouring the ends, the documented years and
// the neighbourhood of epochs.
func years(lo, hi int) *rapid.Generator[int] {
	g := []*rapid.Generator[int]{rapid.IntRange(lo, hi)}
	add := func(a, b int) {
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a <= b {
			g = append(g, rapid.IntRange(a, b))
		}
	}
	add(lo, lo+20)
	add(hi-20, hi)
	add(1890, 2100)
	add(1984, 2041)
	add(1990, 2020)
	add(1280, 1300)
	add(1405, 1420)
	add(1785, 1800)
	return rapid.OneOf(g...)
}

func civilDay(t time.Time) ref.Day {
	u := t.UTC()
	return ref.FromCivil(u.Year(), int(u.Month()), u.Day())
}

// midnight checks that t is midnight UTC of day d, in UTC.
func midnight(c *h.Ctx, what string, t time.Time, d ref.Day) {
	if t.Unix() != d.Unix() || t.Nanosecond() != 0 {
		y, m, dd := d.Civil()
		c.Failf("%s is %v, want %04d-%02d-%02d 00:00:00 UTC", what, t, y, m, dd)
	}
	if n, off := t.Zone(); off != 0 {
		c.Failf("%s is in zone %s, want UTC", what, n)
	}
}

type elem struct {
	name      string
	got, want int64
}

func compare(c *h.Ctx, what string, es []elem) {
	for _, e := range es {
		c.Check(e.got == e.want, "%s: %s is %d, want %d", what, e.name, e.got, e.want)
	}
}

func yearElems(s su.SuriyaYear, r ref.Year) []elem {
	return []elem{
		{"CE year", int64(s.Year), r.CE}, {"BE year", int64(s.BE_Year), r.BE}, {"CS year", int64(s.CS_Year), r.CS},
		{"horakhun", int64(s.Horakhun), r.Horakhun}, {"kammacubala", int64(s.Kammacubala), r.Kammacubala},
		{"uccabala", int64(s.Uccabala), r.Uccabala}, {"avoman", int64(s.Avoman), r.Avoman},
		{"masaken", int64(s.Masaken), r.Masaken}, {"tithi", int64(s.Tithi), r.Tithi},
	}
}

var valueLine = regexp.MustCompile(`(?m)^\s*([A-Za-z_ ]+?)\s*:\s*(-?[0-9]+)\s*$`)

type YearCase struct{ Year, Prev int }

func init() {
	h.Register(h.Spec[YearCase]{
		ID: "C01",
		Rule: "all years 638..20000 enumerated, plus generated (year, year the variable held before); " +
			"every field is compared with an independent integer evaluation. Non-trivial: the previous year differs from the year.",
		Quick: 200000, Thorough: 4000000,
		Gen: func(t *rapid.T) YearCase {
			return YearCase{years(638, 20000).Draw(t, "year"), years(638, 20000).Draw(t, "prev")}
		},
		Sweep: func(c *h.Ctx, yield func(YearCase) bool) {
			for y := 638; y <= 20000; y++ {
				if !yield(YearCase{y, y + 1}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v YearCase) {
			r := ref.NewYear(v.Year)
			s := yr(v.Year)
			compare(c, fmt.Sprint("year ", v.Year), yearElems(s, r))
			var again su.SuriyaYear
			again.Init(v.Prev)
			again.Init(v.Year)
			compare(c, fmt.Sprintf("variable of year %d initialised again to %d", v.Prev, v.Year), yearElems(again, r))
			dirty := su.SuriyaYear{Year: v.Prev, BE_Year: -7, CS_Year: 99, Horakhun: v.Prev * 31, Kammacubala: 801, Uccabala: 4000, Avoman: 700, Masaken: -3, Tithi: 31}
			dirty.Init(v.Year)
			compare(c, fmt.Sprintf("variable with other content initialised to %d", v.Year), yearElems(dirty, r))
			half := su.SuriyaYear{Year: v.Year, Horakhun: v.Prev}
			half.Init(v.Year)
			compare(c, fmt.Sprintf("variable with just the year set initialised to %d", v.Year), yearElems(half, r))
			inForce(v.Year, func() {
				compare(c, fmt.Sprintf("year %d with exceptions in force", v.Year), yearElems(yr(v.Year), r))
			})
			got := map[string]string{}
			for _, m := range valueLine.FindAllStringSubmatch(s.SuriyaValuesString(), -1) {
				got[strings.ToLower(m[1])] = m[2]
			}
			want := map[string]int64{"ce": r.CE, "be": r.BE, "cs": r.CS, "horakhun": r.Horakhun, "kammacubala": r.Kammacubala,
				"uccabala": r.Uccabala, "avoman": r.Avoman, "masaken": r.Masaken, "tithi": r.Tithi}
			for k, n := range want {
				if got[k] != strconv.FormatInt(n, 10) {
					c.Failf("values listing of %d shows %s as %q, want %d:\n%s", v.Year, k, got[k], n, s.SuriyaValuesString())
				}
			}
			c.Check(len(got) == len(want), "values listing of %d has other lines:\n%s", v.Year, s.SuriyaValuesString())
			c.Points(9*4 + 9)
			c.NonTrivial(v.Prev != v.Year)
			c.Class(r.Tithi == 0, "tithi 0")
			c.Class(r.Kammacubala == 800, "kammacubala 800")
			c.Class(v.Prev > v.Year, "previous content later")
		},
	})

	type NextCase struct{ Year int }
	h.Register(h.Spec[NextCase]{
		ID: "C02",
		Rule: "all years 638..20000 enumerated, plus generated ones; year Y is related to Y+1 and to Y+800. " +
			"Non-trivial: Y or Y+1 is a leap year.",
		Quick: 100000, Thorough: 2000000,
		Gen: func(t *rapid.T) NextCase { return NextCase{years(638, 20000).Draw(t, "year")} },
		Sweep: func(c *h.Ctx, yield func(NextCase) bool) {
			for y := 638; y <= 20000; y++ {
				if !yield(NextCase{y}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v NextCase) {
			a, b, p := yr(v.Year), yr(v.Year+1), yr(v.Year+800)
			d := b.Horakhun - a.Horakhun
			c.Check(d == 365 || d == 366, "from %d to %d the New Year moves on by %d days", v.Year, v.Year+1, d)
			c.Check((d == 366) == a.Is_Suriya_Leap(), "%d reports leap year %v, the next New Year is %d days later", v.Year, a.Is_Suriya_Leap(), d)
			c.Check(b.Kammacubala-a.Kammacubala == d*800-292207, "kammacubala of %d is %d, of %d %d, %d days later: 800 a day less 292207 a year", v.Year, a.Kammacubala, v.Year+1, b.Kammacubala, d)
			e := ref.ElementsOfHorakhun(int64(a.Horakhun + d))
			c.Check(int(e.Uccabala) == b.Uccabala && int(e.Avoman) == b.Avoman && int(e.Masaken) == b.Masaken && int(e.Tithi) == b.Tithi,
				"elements of %d are not those %d days after the New Year of %d", v.Year+1, d, v.Year)
			c.Check((a.Uccabala+d)%3232 == b.Uccabala, "uccabala of %d is %d, of %d %d", v.Year, a.Uccabala, v.Year+1, b.Uccabala)
			// lunar days since: whole months and tithi move on by d days and the avoman carry
			lun := (a.Avoman + 11*d) / 692
			c.Check(b.Masaken*30+b.Tithi == a.Masaken*30+a.Tithi+d+lun && b.Avoman == (a.Avoman+11*d)%692,
				"lunar days from %d to %d: %d in %d days", v.Year, v.Year+1, b.Masaken*30+b.Tithi-a.Masaken*30-a.Tithi, d)
			c.Check(p.Horakhun-a.Horakhun == 292207, "800 years from %d are %d days", v.Year, p.Horakhun-a.Horakhun)
			c.Check(p.Kammacubala == a.Kammacubala && p.Is_Suriya_Leap() == a.Is_Suriya_Leap(), "kammacubala or leap status of %d and %d differ", v.Year, v.Year+800)
			c.Points(9)
			inForce(v.Year, func() {
				e := yr(v.Year)
				c.Check(yr(v.Year+1).Horakhun-e.Horakhun == d && e.Is_Suriya_Leap() == (d == 366), "with exceptions in force %d is a leap year %v, the next New Year %d days later", v.Year, e.Is_Suriya_Leap(), yr(v.Year+1).Horakhun-e.Horakhun)
			})
			c.NonTrivial(a.Is_Suriya_Leap() || b.Is_Suriya_Leap())
			c.Class(a.Is_Suriya_Leap(), "leap")
		},
	})

	type SpanCase struct{ From, Years int }
	h.Register(h.Spec[SpanCase]{
		ID: "C03",
		Rule: "every year 639..12000 enumerated against the rule and its gap, plus generated spans for the conservation law. " +
			"Non-trivial: the span holds an adhikamasa year.",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) SpanCase {
			return SpanCase{years(639, 11000).Draw(t, "from"), rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 900)).Draw(t, "years")}
		},
		Sweep: func(c *h.Ctx, yield func(SpanCase) bool) {
			for y := 639; y <= 12000; y++ {
				if !yield(SpanCase{y, 1}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v SpanCase) {
			n, last := 0, -1
			for y := v.From; y < v.From+v.Years; y++ {
				s := yr(y)
				m := s.Is_Adhikamasa()
				c.Check(s.Would_Be_Adhikamasa() == ref.QualifiesM(y), "%d (tithi %d) would be adhikamasa: %v", y, s.Tithi, s.Would_Be_Adhikamasa())
				c.Check(m == ref.Adhikamasa(y), "%d is adhikamasa: %v; tithi %d, next year's %d", y, m, s.Tithi, yr(y+1).Tithi)
				if m {
					n++
					if last > 0 {
						c.Check(y-last == 2 || y-last == 3, "adhikamasa years %d and %d follow each other", last, y)
					}
					last = y
				}
			}
			if v.Years == 1 && n == 1 {
				gap := 0
				for d := 1; d <= 3 && gap == 0; d++ {
					if yr(v.From + d).Is_Adhikamasa() {
						gap = d
					}
				}
				c.Check(gap == 2 || gap == 3, "no adhikamasa year two or three years after %d (next within three: %d)", v.From, gap)
			}
			inForce(v.From, func() {
				s := yr(v.From)
				c.Check(s.Is_Adhikamasa() == ref.Adhikamasa(v.From) && s.Would_Be_Adhikamasa() == ref.QualifiesM(v.From), "with exceptions in force %d is adhikamasa %v, would be %v", v.From, s.Is_Adhikamasa(), s.Would_Be_Adhikamasa())
			})
			e := yr(v.From + v.Years)
			extra := e.Masaken - yr(v.From).Masaken - 12*v.Years
			c.Check(extra >= n-1 && extra <= n+1, "%d..%d: %d adhikamasa years but %d extra months", v.From, v.From+v.Years-1, n, extra)
			c.Points(2*v.Years + 1)
			c.NonTrivial(n > 0)
			c.Class(v.Years > 57, "span over 57 years")
			c.Class(v.Years == 1, "single year")
		},
	})

	h.Register(h.Spec[SpanCase]{
		ID: "C04",
		Rule: "every year 640..12000 enumerated against the rule, plus generated spans for the spacing. " +
			"Non-trivial: the span holds an adhikavara year or a qualifying adhikamasa year.",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) SpanCase {
			f := years(640, 3990).Draw(t, "from")
			return SpanCase{f, rapid.IntRange(1, min(300, 4000-f)).Draw(t, "years")}
		},
		Sweep: func(c *h.Ctx, yield func(SpanCase) bool) {
			for y := 640; y <= 12000; y++ {
				if !yield(SpanCase{y, 1}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v SpanCase) {
			last, nt := -1, false
			for y := v.From; y < v.From+v.Years; y++ {
				s := yr(y)
				m, a, w, k := s.Is_Adhikamasa(), s.Is_Adhikavara(), s.Would_Be_Adhikavara(), s.Has_Carried_Adhikavara()
				c.Check(w == ref.QualifiesV(y), "%d (avoman %d, kammacubala %d) would be adhikavara: %v", y, s.Avoman, s.Kammacubala, w)
				c.Check(k == ref.Carried(y), "%d has carried adhikavara: %v, want %v", y, k, ref.Carried(y))
				c.Check(a == ref.Adhikavara(y, false), "%d is adhikavara: %v, want %v (adhikamasa %v, qualifies %v, carried %v)", y, a, ref.Adhikavara(y, false), m, w, k)
				c.Check(!(m && a), "%d is both adhikamasa and adhikavara", y)
				if m && w {
					nt = true
					c.Class(true, "qualifying adhikamasa year")
					c.Check(yr(y+1).Is_Adhikavara(), "%d is adhikamasa and qualifies for adhikavara, but %d is not adhikavara", y, y+1)
				}
				if a {
					nt = true
					if last > 0 && y <= 4000 {
						c.Check(y-last >= 4 && y-last <= 7, "adhikavara years %d and %d are %d apart", last, y, y-last)
					}
					last = y
				}
				if last > 0 && y <= 4000 {
					c.Check(y-last <= 7, "no adhikavara year since %d, by %d", last, y)
				}
			}
			inForce(v.From, func() {
				s := yr(v.From)
				c.Check(s.Would_Be_Adhikavara() == ref.QualifiesV(v.From), "with exceptions in force %d would be adhikavara: %v", v.From, s.Would_Be_Adhikavara())
			})
			c.Points(4 * v.Years)
			c.NonTrivial(nt)
			c.Class(v.Years == 1, "single year")
		},
	})
}
