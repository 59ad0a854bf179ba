// Package full holds the properties of the calendar days, which need the
// third-party stand-ins to compile.
package full

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/core"
	"verif/h"
	"verif/ref"
)

func yr(y int) su.SuriyaYear {
	var s su.SuriyaYear
	s.Init(y)
	return s
}

func years(lo, hi int) *rapid.Generator[int] { return core.Years(lo, hi) }

type YearX struct {
	Year int
	Exc  bool
}

func genYearX(lo, hi int) func(t *rapid.T) YearX {
	return func(t *rapid.T) YearX {
		return YearX{years(lo, hi).Draw(t, "year"), rapid.Bool().Draw(t, "exceptions")}
	}
}

func sweepYearX(lo, hi int) func(c *h.Ctx, yield func(YearX) bool) {
	return func(c *h.Ctx, yield func(YearX) bool) {
		for _, exc := range []bool{false, true} {
			for y := lo; y <= hi; y++ {
				if !yield(YearX{y, exc}) {
					return
				}
			}
		}
	}
}

// text of an event, complete: two events are the same when their texts are.
func eventText(e su.CalendarEvent) string {
	switch v := e.(type) {
	case su.UposathaMoon:
		return uposathaText(v)
	case su.HalfMoon:
		return "half " + stamp(v.Date) + " " + v.Phase
	case su.AstroMoon:
		return "astro " + stamp(v.Date) + " " + v.Phase
	case su.MajorEvent:
		return fmt.Sprintf("major %s %d %q %q", stamp(v.Date), v.Calendar, v.Summary, v.Description)
	case su.Event:
		return fmt.Sprintf("event %s %d %q %q", stamp(v.Date), v.Calendar, v.Summary, v.Description)
	}
	return fmt.Sprintf("unknown event %T %v", e, e)
}

// stamp shows an instant in UTC.
func stamp(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.999999999") }

func uposathaText(v su.UposathaMoon) string {
	return fmt.Sprintf("uposatha %s %s cal=%d status=%d event=%q n=%d/%d U=%d M=%d month=%d season=%d year=%d adhikavara=%v src=%q com=%q",
		stamp(v.Date), v.Phase, v.Calendar, v.Status, v.Event, v.S_Number, v.S_Total, v.U_Days, v.M_Days, v.LunarMonth, v.LunarSeason, v.LunarYear, v.HasAdhikavara, v.Source, v.Comments)
}

func dayTime(d ref.Day) time.Time { return time.Unix(d.Unix(), 0).UTC() }

// refUposatha gives the reference uposatha as the library's type.
func refUposatha(u ref.Uposatha, status int) su.UposathaMoon {
	return su.UposathaMoon{Date: dayTime(u.Day), Status: status, Phase: ref.Phase(u.Full), Event: u.Event, S_Number: u.SNumber, S_Total: u.STotal,
		U_Days: u.UDays, M_Days: u.MDays, LunarMonth: u.Month, LunarSeason: u.Season, LunarYear: u.LunarYear, HasAdhikavara: u.HasAdhikavara}
}

func refText(e ref.Event) string {
	switch e.Kind {
	case "uposatha":
		return uposathaText(refUposatha(e.U, 2))
	case "half":
		return "half " + stamp(dayTime(e.Day)) + " " + e.Phase
	}
	return fmt.Sprintf("major %s %d %q %q", stamp(dayTime(e.Day)), 0, e.Summary, e.Summary)
}

// refRange gives the texts of the calendar events of a span of time.
func refRange(from, to time.Time, exc bool) []string {
	var out []string
	if to.Before(from) {
		return nil
	}
	for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
		for _, e := range ref.SolarYear(y, exc) {
			t := dayTime(e.Day)
			if t.Before(from) || t.After(to) {
				continue
			}
			out = append(out, refText(e))
		}
	}
	return out
}

// AstroRec is one recorded moon of the data files.
type AstroRec struct {
	Timestamp   int64     `json:"timestamp"`
	DateTimeISO time.Time `json:"dateTimeISO"`
	Code        int       `json:"code"`
	Name        string    `json:"name"`
}

type astroFile struct {
	Success  bool        `json:"success"`
	Error    interface{} `json:"error"`
	Response []AstroRec  `json:"response"`
}

var astroByYear map[int][]AstroRec

// diskAstro reads the data files of the tree, with an own reader.
func diskAstro() map[int][]AstroRec {
	if astroByYear != nil {
		return astroByYear
	}
	m := map[int][]AstroRec{}
	for y := 1800; y <= 2200; y++ {
		b, err := os.ReadFile(fmt.Sprintf("/repo/data/astro/astro-%d.json", y))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			h.Fatal("%v", err)
		}
		var f astroFile
		if err := json.Unmarshal(b, &f); err != nil {
			h.Fatal("astro-%d.json: %v", y, err)
		}
		if !f.Success || f.Error != nil {
			continue
		}
		m[y] = f.Response
	}
	if len(m) < 100 {
		h.Fatal("only %d data files", len(m))
	}
	astroByYear = m
	return m
}

var phases = [4]string{"new", "waxing", "full", "waning"}

func astroRange(from, to time.Time) []string {
	var out []string
	if to.Before(from) {
		return nil
	}
	for y := from.UTC().Year() - 1; y <= to.UTC().Year()+1; y++ {
		for _, r := range diskAstro()[y] {
			if r.DateTimeISO.Before(from) || r.DateTimeISO.After(to) {
				continue
			}
			out = append(out, "astro "+stamp(r.DateTimeISO)+" "+phases[r.Code])
		}
	}
	return out
}

// flatten gives the texts of all events of the days, by day.
func flattenDay(d su.CalDay) []string {
	var out []string
	for _, m := range d.UposathaMoon {
		out = append(out, eventText(m))
	}
	for _, m := range d.HalfMoon {
		out = append(out, eventText(m))
	}
	for _, m := range d.AstroMoon {
		out = append(out, eventText(m))
	}
	for _, m := range d.MajorEvents {
		out = append(out, eventText(m))
	}
	for _, m := range d.Events {
		out = append(out, eventText(m))
	}
	return out
}

func flatten(ds []su.CalDay) []string {
	var out []string
	for _, d := range ds {
		out = append(out, flattenDay(d)...)
	}
	return out
}

func sorted(a []string) []string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return b
}

// diff gives what one list has and the other has not, as multisets.
func diff(got, want []string) string {
	n := map[string]int{}
	for _, x := range got {
		n[x]++
	}
	for _, x := range want {
		n[x]--
	}
	var extra, missing []string
	for x, k := range n {
		for ; k > 0; k-- {
			extra = append(extra, x)
		}
		for ; k < 0; k++ {
			missing = append(missing, x)
		}
	}
	if len(extra)+len(missing) == 0 {
		return ""
	}
	cut := func(a []string) string {
		sort.Strings(a)
		if len(a) > 6 {
			a = append(a[:6:6], "...")
		}
		return strings.Join(a, "\n   ")
	}
	s := ""
	if len(missing) > 0 {
		s += fmt.Sprintf("%d missing:\n   %s\n", len(missing), cut(missing))
	}
	if len(extra) > 0 {
		s += fmt.Sprintf("%d not expected:\n   %s\n", len(extra), cut(extra))
	}
	return s
}

func listing(y int) []string {
	var out []string
	for _, e := range su.GenerateSolarYear(y) {
		out = append(out, eventText(e))
	}
	return out
}

func refListing(y int, exc bool, kind string) []string {
	var out []string
	for _, e := range ref.SolarYear(y, exc) {
		if kind == "" || e.Kind == kind {
			out = append(out, refText(e))
		}
	}
	return out
}

func only(a []string, kind string) []string {
	var out []string
	for _, x := range a {
		if strings.HasPrefix(x, kind+" ") {
			out = append(out, x)
		}
	}
	return out
}

func init() {
	core.ListingQuery = func(y int, exc bool) string { return diff(listing(y), refListing(y, exc, "")) }
}
