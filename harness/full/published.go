package full

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/soh335/ical"
	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

//go:embed testdata/caldays-from-2014-01-01-to-2017-12-31.json
var publishedJSON []byte

//go:embed testdata/mahanikaya-from-2013-01-01-to-2017-12-31.ical
var publishedIcal string

type dated struct {
	at   time.Time
	text string
}

// icalEvents reads the events of an iCalendar text.
func icalEvents(s string) (head []string, out []dated, uids []string, err error) {
	var cur map[string]string
	for _, l := range strings.Split(strings.ReplaceAll(s, "\r\n", "\n"), "\n") {
		switch {
		case l == "BEGIN:VEVENT":
			if cur != nil {
				return nil, nil, nil, fmt.Errorf("event in an event")
			}
			cur = map[string]string{}
		case l == "END:VEVENT":
			if cur == nil {
				return nil, nil, nil, fmt.Errorf("end without an event")
			}
			a, e1 := time.Parse("20060102", cur["DTSTART;VALUE=DATE"])
			b, e2 := time.Parse("20060102", cur["DTEND;VALUE=DATE"])
			if e1 != nil || e2 != nil || b.Sub(a) != 24*time.Hour || cur["SUMMARY"] == "" || cur["DTSTAMP"] == "" || cur["UID"] == "" {
				return nil, nil, nil, fmt.Errorf("event %v", cur)
			}
			out = append(out, dated{a, cur["SUMMARY"]})
			uids = append(uids, cur["UID"])
			cur = nil
		case cur != nil:
			k, v, _ := strings.Cut(l, ":")
			cur[k] = v
		case l == "" || l == "END:VCALENDAR":
		default:
			head = append(head, l)
		}
	}
	if cur != nil {
		return nil, nil, nil, fmt.Errorf("unfinished event")
	}
	if !strings.HasSuffix(strings.TrimSpace(s), "END:VCALENDAR") {
		return nil, nil, nil, fmt.Errorf("unfinished calendar")
	}
	return head, out, uids, nil
}

// icalOfDays makes the events the way the published calendar has them.
func icalOfDays(days []su.CalDay) (out []dated) {
	add := func(e ical.VEvent) {
		t := e.DTSTART.UTC()
		out = append(out, dated{time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC), e.SUMMARY})
	}
	for _, d := range days {
		for _, m := range d.UposathaMoon {
			add(m.IcalEvent())
		}
		for _, m := range d.HalfMoon {
			add(m.IcalEvent())
		}
		for _, m := range d.MajorEvents {
			add(m.IcalEvent())
		}
		for _, m := range d.Events {
			add(m.IcalEvent())
		}
	}
	return
}

func datedTexts(ds []dated) (out []string) {
	for _, d := range ds {
		out = append(out, d.at.Format("2006-01-02 15:04:05 ")+strings.ReplaceAll(d.text, "Visākha", "Vesākha"))
	}
	return
}

func init() {
	var golden []dated // events of the published JSON
	type item struct {
		Date                           time.Time
		Calendar, Status               int
		Phase, Event                   string
		S_Number, S_Total              int
		U_Days, M_Days                 int
		LunarMonth, LunarSeason        int
		LunarYear                      int
		HasAdhikavara                  bool
		Source, Comments, Summary, Des string
		Description                    string
	}
	var years map[string][]struct {
		Date                                                   time.Time
		UposathaMoon, HalfMoon, AstroMoon, MajorEvents, Events []item
	}
	if err := json.Unmarshal(publishedJSON, &years); err != nil {
		panic(err)
	}
	name := func(s string) string { return strings.ReplaceAll(s, "Visākha", "Vesākha") }
	for _, ds := range years {
		for _, d := range ds {
			for _, i := range d.UposathaMoon {
				golden = append(golden, dated{i.Date, uposathaText(su.UposathaMoon{Date: i.Date, Calendar: i.Calendar, Status: i.Status, Phase: i.Phase, Event: i.Event, S_Number: i.S_Number, S_Total: i.S_Total,
					U_Days: i.U_Days, M_Days: i.M_Days, LunarMonth: i.LunarMonth, LunarSeason: i.LunarSeason, LunarYear: i.LunarYear, HasAdhikavara: i.HasAdhikavara, Source: i.Source, Comments: i.Comments})})
			}
			for _, i := range d.HalfMoon {
				golden = append(golden, dated{i.Date, "half " + stamp(i.Date) + " " + i.Phase})
			}
			for _, i := range d.AstroMoon {
				golden = append(golden, dated{i.Date, "astro " + stamp(i.Date) + " " + i.Phase})
			}
			for _, i := range d.MajorEvents {
				golden = append(golden, dated{i.Date, name(eventText(su.MajorEvent{Date: i.Date, Calendar: i.Calendar, Summary: i.Summary, Description: i.Description}))})
			}
		}
	}
	_, goldenIcal, _, err := icalEvents(publishedIcal)
	if err != nil || len(golden) < 300 || len(goldenIcal) < 250 {
		panic(fmt.Sprint(err, len(golden), len(goldenIcal)))
	}
	between := func(ds []dated, a, b time.Time) (out []dated) {
		for _, d := range ds {
			if !d.at.Before(a) && !d.at.After(b) {
				out = append(out, d)
			}
		}
		return
	}
	lo, hi := ref.FromCivil(2013, 1, 1).Unix(), ref.FromCivil(2018, 1, 1).Unix()-1
	h.Register(h.Spec[RangeCase]{
		ID: "C31",
		Rule: "the whole of the published calendars, each of their years, months and days, and generated parts with ends at, next to or away from their events, in any timezone; the range query against what they hold. " +
			"Non-trivial: the part has an event of each calendar.",
		Quick: 10000, Thorough: 150000,
		Gen: func(t *rapid.T) RangeCase {
			end := func(n string) Instant {
				i := Instant{Unix: rapid.Int64Range(lo, hi).Draw(t, n), Zone: genZone().Draw(t, n+" zone")}
				switch rapid.IntRange(0, 3).Draw(t, n+" kind") {
				case 0:
					i.Unix = golden[rapid.IntRange(0, len(golden)-1).Draw(t, n+" event")].at.Unix() + int64(rapid.IntRange(-1, 1).Draw(t, n+" off"))
				case 1:
					i.Unix = goldenIcal[rapid.IntRange(0, len(goldenIcal)-1).Draw(t, n+" event")].at.Unix() + int64(rapid.IntRange(-1, 1).Draw(t, n+" off"))
				}
				return i
			}
			a, b := end("from"), end("to")
			if b.Unix < a.Unix {
				a, b = b, a
			}
			return RangeCase{a, b, false}
		},
		Sweep: func(c *h.Ctx, yield func(RangeCase) bool) {
			at := func(y, m, d int) int64 { return ref.FromCivil(y, m, d).Unix() }
			r := func(a, b int64) bool { return yield(RangeCase{Instant{Unix: a}, Instant{Unix: b}, false}) }
			if !r(lo, hi) || !r(at(2014, 1, 1), at(2017, 12, 31)) || !r(at(2013, 1, 1), at(2017, 12, 31)) {
				return
			}
			for y := 2013; y <= 2017; y++ {
				if !r(at(y, 1, 1), at(y+1, 1, 1)-1) {
					return
				}
				for m := 1; m <= 12; m++ {
					ny, nm := y, m+1
					if nm == 13 {
						ny, nm = y+1, 1
					}
					if !r(at(y, m, 1), at(ny, nm, 1)-1) {
						return
					}
				}
			}
			for d := lo; d <= hi; d += 86400 {
				if !r(d, d+86399) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v RangeCase) {
			from, to := v.From.Time(), v.To.Time()
			days := su.GetCalDays(from, to)
			wi := datedTexts(between(goldenIcal, from, to))
			if d := diff(datedTexts(icalOfDays(days)), wi); d != "" {
				c.Failf("%v to %v against the published iCalendar: %s", from, to, d)
			}
			var wj []string
			start := time.Date(2014, 1, 1, 0, 0, 0, 0, time.UTC)
			for _, e := range between(golden, from, to) {
				wj = append(wj, e.text)
			}
			var got []string
			for _, d := range days {
				if d.Date.Before(start) {
					continue
				}
				for _, x := range flattenDay(d) {
					if strings.HasPrefix(x, "astro ") && (strings.HasSuffix(x, " waxing") || strings.HasSuffix(x, " waning")) {
						continue // the published one has new and full moons only
					}
					got = append(got, x)
				}
			}
			if d := diff(got, wj); d != "" {
				c.Failf("%v to %v against the published JSON: %s", from, to, d)
			}
			c.Points(len(wi) + len(wj))
			c.NonTrivial(len(wi) > 0 && len(wj) > 0)
			c.Class(len(wi)+len(wj) == 0, "nothing published")
			c.Class(from.Year() != to.Year(), "over a year end")
		},
	})
}
