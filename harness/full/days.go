package full

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/soh335/ical"
	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// Thing is anything that can be on a calendar day, with all its attributes.
type Thing struct {
	Kind  string // uposatha, half, astro, event, major
	Date  Instant
	Phase string
	Text  [4]string
	Num   [9]int
	Flag  bool
}

var thingKinds = []string{"uposatha", "half", "astro", "event", "major"}

func genText() *rapid.Generator[string] {
	short := rapid.OneOf(rapid.SampledFrom([]string{"", "asalha", "Āsāḷha Pūjā", "First day of Vassa", "<b>&\"quoted\"</b>", "a,b;c", "line\nline", "\x00\u2028"}), rapid.String())
	return rapid.Custom(func(t *rapid.T) string {
		s := short.Draw(t, "short")
		if rapid.IntRange(0, 19).Draw(t, "long") == 13 {
			s = strings.Repeat("Āsāḷha Pūjā, a day of note. ", rapid.IntRange(3, 80).Draw(t, "times")) + s
		}
		return strings.ToValidUTF8(s, "?")
	})
}

func genDate(t *rapid.T) Instant {
	if rapid.IntRange(0, 29).Draw(t, "zero") == 29 {
		return Instant{Unix: (time.Time{}).Unix()}
	}
	y := rapid.OneOf(rapid.IntRange(1900, 2100), rapid.IntRange(642, 4000), rapid.IntRange(2, 9998)).Draw(t, "year")
	i := Instant{Unix: ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(0, 365).Draw(t, "day"))*86400}
	if rapid.Bool().Draw(t, "clock") {
		i.Unix += int64(rapid.IntRange(0, 86399).Draw(t, "second"))
		if rapid.Bool().Draw(t, "fraction") {
			i.Nano = int64(rapid.IntRange(0, 999999999).Draw(t, "nano"))
		}
	}
	genPlace(t, &i, "date")
	return i
}

func genThing() *rapid.Generator[Thing] {
	return rapid.Custom(func(t *rapid.T) Thing {
		v := Thing{Kind: rapid.SampledFrom(thingKinds).Draw(t, "kind"), Date: genDate(t)}
		v.Phase = rapid.SampledFrom([]string{"new", "waxing", "full", "waning", "new", "full", ""}).Draw(t, "phase")
		for i := range v.Text {
			v.Text[i] = genText().Draw(t, "text")
		}
		v.Num = [9]int{rapid.IntRange(0, 3).Draw(t, "calendar"), rapid.IntRange(0, 2).Draw(t, "status"), rapid.IntRange(1, 10).Draw(t, "number"), rapid.SampledFrom([]int{8, 10}).Draw(t, "total"),
			rapid.IntRange(14, 15).Draw(t, "udays"), rapid.IntRange(29, 30).Draw(t, "mdays"), rapid.IntRange(0, 13).Draw(t, "month"), rapid.IntRange(0, 4).Draw(t, "season"), rapid.OneOf(rapid.IntRange(2400, 2700), rapid.IntRange(0, 5000)).Draw(t, "lunar year")}
		if rapid.IntRange(0, 7).Draw(t, "any numbers") == 0 {
			for i := range v.Num {
				v.Num[i] = rapid.OneOf(rapid.IntRange(-20, 40), rapid.IntRange(-1<<31, 1<<31-1)).Draw(t, "number")
			}
		}
		v.Flag = rapid.Bool().Draw(t, "adhikavara")
		return v
	})
}

func (v Thing) uposatha() su.UposathaMoon {
	return su.UposathaMoon{Date: v.Date.Time(), Calendar: v.Num[0], Status: v.Num[1], Phase: v.Phase, Event: v.Text[0], S_Number: v.Num[2], S_Total: v.Num[3], U_Days: v.Num[4], M_Days: v.Num[5],
		LunarMonth: v.Num[6], LunarSeason: v.Num[7], LunarYear: v.Num[8], HasAdhikavara: v.Flag, Source: v.Text[1], Comments: v.Text[2]}
}
func (v Thing) half() su.HalfMoon   { return su.HalfMoon{Date: v.Date.Time(), Phase: v.Phase} }
func (v Thing) astro() su.AstroMoon { return su.AstroMoon{Date: v.Date.Time(), Phase: v.Phase} }
func (v Thing) event() su.Event {
	return su.Event{Date: v.Date.Time(), Calendar: v.Num[0], Summary: v.Text[0], Description: v.Text[1]}
}
func (v Thing) major() su.MajorEvent {
	return su.MajorEvent{Date: v.Date.Time(), Calendar: v.Num[0], Summary: v.Text[0], Description: v.Text[1]}
}

func (v Thing) calendarEvent() su.CalendarEvent {
	switch v.Kind {
	case "uposatha":
		return v.uposatha()
	case "half":
		return v.half()
	case "astro":
		return v.astro()
	case "event":
		return v.event()
	}
	return v.major()
}

func (v Thing) ical() ical.VEvent {
	switch v.Kind {
	case "uposatha":
		return v.uposatha().IcalEvent()
	case "half":
		return v.half().IcalEvent()
	case "astro":
		return v.astro().IcalEvent()
	case "event":
		return v.event().IcalEvent()
	}
	return v.major().IcalEvent()
}

var phaseTitle = map[string]string{"new": "New", "waxing": "Waxing", "full": "Full", "waning": "Waning"}

// text is what the thing should read as.
func (v Thing) text() string {
	switch v.Kind {
	case "event", "major":
		return v.Text[0]
	}
	if v.Phase == "" {
		return ""
	}
	s := phaseTitle[v.Phase] + " Moon"
	if v.Kind == "uposatha" {
		season := ""
		if v.Num[7] >= 1 && v.Num[7] <= 3 {
			season = []string{"Hemanta", "Gimha", "Vassāna"}[v.Num[7]-1]
		}
		s += fmt.Sprintf(" - %d day %s %d/%d", v.Num[4], season, v.Num[2], v.Num[3])
	}
	return s
}

// json fields by name
func (v Thing) fields() map[string]any {
	d := v.Date.Time()
	switch v.Kind {
	case "uposatha":
		u := v.uposatha()
		return map[string]any{"Date": d, "Calendar": u.Calendar, "Status": u.Status, "Phase": u.Phase, "Event": u.Event, "S_Number": u.S_Number, "S_Total": u.S_Total, "U_Days": u.U_Days, "M_Days": u.M_Days,
			"LunarMonth": u.LunarMonth, "LunarSeason": u.LunarSeason, "LunarYear": u.LunarYear, "HasAdhikavara": u.HasAdhikavara, "Source": u.Source, "Comments": u.Comments}
	case "half", "astro":
		return map[string]any{"Date": d, "Phase": v.Phase}
	}
	return map[string]any{"Date": d, "Calendar": v.Num[0], "Summary": v.Text[0], "Description": v.Text[1]}
}

func canonical(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		h.Fatal("%v", err)
	}
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		h.Fatal("%v", err)
	}
	b, _ = json.Marshal(x)
	return string(b)
}

func sameTime(a, b time.Time) bool {
	_, x := a.Zone()
	_, y := b.Zone()
	return a.Equal(b) && x == y
}

func init() {
	type Put struct {
		How   string // set (date of the day unchanged), add
		T     Thing
		Times int // events: added this often, numbered
	}
	type Container struct{ Puts []Put }
	h.Register(h.Spec[Container]{
		ID: "C27", AnySwitch: true,
		Rule: "sequences of 0..14 (some: 40..80) sets and adds of all five kinds with arbitrary attributes and dates on one day, events also up to 3000 times each, against a model of the day after every step; then JSON, there and back. " +
			"Non-trivial: some kind is put at least twice and at least two kinds are present.",
		Quick: 40000, Thorough: 600000,
		Gen: func(t *rapid.T) Container {
			most := 14
			if rapid.IntRange(0, 49).Draw(t, "many") == 37 {
				most = 80
			}
			return Container{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Put {
				p := Put{How: "add", T: genThing().Draw(t, "thing")}
				if rapid.IntRange(0, 5).Draw(t, "any phase") == 0 {
					p.T.Phase = genText().Draw(t, "phase text")
				}
				if p.T.Kind != "event" && p.T.Kind != "major" {
					if rapid.Bool().Draw(t, "set") {
						p.How = "set"
					}
				} else if rapid.IntRange(0, 149).Draw(t, "often") == 77 {
					p.Times = rapid.OneOf(rapid.IntRange(2, 120), rapid.IntRange(2, 120), rapid.IntRange(100, 3000)).Draw(t, "times")
				}
				return p
			}), most/20*10, most).Draw(t, "puts")}
		},
		Check: func(c *h.Ctx, v Container) {
			var day su.CalDay
			last := map[string]*Thing{}
			lists := map[string][]Thing{}
			var date time.Time
			n := map[string]int{}
			check := func(step string) {
				c.Check(sameTime(day.Date, date), "%s: the day's date is %v, want %v", step, day.Date, date)
				var u su.UposathaMoon
				var a su.AstroMoon
				var hm su.HalfMoon
				if t := last["uposatha"]; t != nil {
					u = t.uposatha()
				}
				if t := last["astro"]; t != nil {
					a = t.astro()
				}
				if t := last["half"]; t != nil {
					hm = t.half()
				}
				gu, ga, gh := day.GetUposathaMoon(), day.GetAstroMoon(), day.GetHalfMoon()
				c.Check(uposathaText(gu) == uposathaText(u) && sameTime(gu.Date, u.Date), "%s: uposatha is %+v, want %+v", step, gu, u)
				c.Check(ga.Phase == a.Phase && sameTime(ga.Date, a.Date), "%s: astronomical moon is %+v, want %+v", step, ga, a)
				c.Check(gh.Phase == hm.Phase && sameTime(gh.Date, hm.Date), "%s: half moon is %+v, want %+v", step, gh, hm)
				one := func(kind string, n int) {
					w := 0
					if last[kind] != nil {
						w = 1
					}
					c.Check(n == w, "%s: the day holds %d of %s", step, n, kind)
				}
				one("uposatha", len(day.UposathaMoon))
				one("half", len(day.HalfMoon))
				one("astro", len(day.AstroMoon))
				c.Check(len(day.Events) == len(lists["event"]) && len(day.MajorEvents) == len(lists["major"]), "%s: the day holds %d events, %d major", step, len(day.Events), len(day.MajorEvents))
				for i, t := range lists["event"] {
					c.Check(eventText(day.Events[i]) == eventText(t.event()), "%s: event %d is %+v, want %+v", step, i, day.Events[i], t.event())
				}
				for i, t := range lists["major"] {
					c.Check(eventText(day.MajorEvents[i]) == eventText(t.major()), "%s: major event %d is %+v, want %+v", step, i, day.MajorEvents[i], t.major())
				}
			}
			check("empty day")
			for i, p := range v.Puts {
				t := p.T
				for k := 1; k < p.Times; k++ {
					x := t
					x.Text[0] += fmt.Sprint(" ", k)
					x.calendarEvent().AddToDay(&day)
					lists[t.Kind] = append(lists[t.Kind], x)
				}
				c.Check(sameTime(t.calendarEvent().GetDate(), t.Date.Time()), "%s of %v gives date %v", t.Kind, t.Date.Time(), t.calendarEvent().GetDate())
				if p.How == "set" {
					switch t.Kind {
					case "uposatha":
						day.SetUposathaMoon(t.uposatha())
					case "half":
						day.SetHalfMoon(t.half())
					case "astro":
						day.SetAstroMoon(t.astro())
					}
				} else {
					t.calendarEvent().AddToDay(&day)
					date = t.Date.Time()
				}
				if t.Kind == "event" || t.Kind == "major" {
					lists[t.Kind] = append(lists[t.Kind], t)
				} else {
					last[t.Kind] = &t
				}
				n[t.Kind]++
				check(fmt.Sprintf("step %d, %s %s", i, p.How, t.Kind))
				c.Points(1)
			}
			// JSON
			b, err := json.Marshal(day)
			c.Check(err == nil, "JSON: %v", err)
			want := map[string]any{"Date": date}
			list := func(key string, ts []Thing) {
				var l []any
				for _, t := range ts {
					l = append(l, t.fields())
				}
				if l != nil {
					want[key] = l
				}
			}
			for kind, key := range map[string]string{"uposatha": "UposathaMoon", "half": "HalfMoon", "astro": "AstroMoon"} {
				if last[kind] != nil {
					list(key, []Thing{*last[kind]})
				}
			}
			list("MajorEvents", lists["major"])
			list("Events", lists["event"])
			c.Check(canonical(json.RawMessage(b)) == canonical(want), "JSON is %s\nwant %s", b, canonical(want))
			var back su.CalDay
			c.Check(json.Unmarshal(b, &back) == nil, "the JSON does not decode: %s", b)
			orig := day
			day = back
			check("decoded from JSON")
			day = orig
			twice, kinds := false, 0
			for _, k := range n {
				twice = twice || k > 1
				kinds++
			}
			c.NonTrivial(twice && kinds > 1)
			c.Class(len(v.Puts) == 0, "empty day")
			c.Class(len(lists["event"]) > 1 || len(lists["major"]) > 1, "several events of a kind")
			c.Class(kinds == 5, "all kinds")
			c.Class(len(lists["event"]) > 100 || len(lists["major"]) > 100, "more than a hundred events of a kind")
		},
	})

	type IcalCase struct{ T Thing }
	seen := map[string]bool{}
	h.Register(h.Spec[IcalCase]{
		ID: "C28", AnySwitch: true,
		Rule: "things of all five kinds with arbitrary dates, timezones and attributes, each turned into an iCalendar event twice. " +
			"Non-trivial: the date has a time of day or a timezone, or the thing has a text.",
		Quick: 150000, Thorough: 2000000,
		Assumptions: []string{"github.com/soh335/ical and github.com/satori/go.uuid are replaced by stand-ins with the same fields and functions"},
		Gen: func(t *rapid.T) IcalCase {
			v := IcalCase{genThing().Draw(t, "thing")}
			switch rapid.IntRange(0, 9).Draw(t, "other place") {
			case 8:
				v.T.Date.Loc = "nameless"
			case 9:
				v.T.Date.Loc = "Local"
			}
			return v
		},
		Check: func(c *h.Ctx, v IcalCase) {
			d := v.T.Date.Time()
			t0 := time.Now()
			e, e2 := v.T.ical(), v.T.ical()
			t1 := time.Now()
			c.Check(sameTime(e.DTSTART, d), "starts at %v, want %v", e.DTSTART, d)
			c.Check(e.DTEND.Equal(d.Add(24*time.Hour)), "ends at %v, want 24 hours after %v", e.DTEND, d)
			c.Check(e.SUMMARY == v.T.text(), "summary is %q, want %q", e.SUMMARY, v.T.text())
			c.Check(e.AllDay, "not an all-day event")
			c.Check(e.TZID == d.Location().String(), "timezone is %q, want %q", e.TZID, d.Location().String())
			c.Check(!e.DTSTAMP.Before(t0.Round(0).Add(-time.Second)) && !e.DTSTAMP.After(t1.Round(0).Add(time.Second)), "stamped %v, made at %v", e.DTSTAMP, t0)
			for _, u := range []string{e.UID, e2.UID} {
				c.Check(u != "" && !seen[u], "identifier %q is not its own", u)
				if len(seen) < 2000000 {
					seen[u] = true
				}
			}
			c.Check(e2.SUMMARY == e.SUMMARY && e2.DTSTART.Equal(e.DTSTART) && e2.DTEND.Equal(e.DTEND), "the second one differs: %+v and %+v", e, e2)
			c.Points(8)
			c.NonTrivial(v.T.text() != "" || v.T.Date.Zone != 0 || d.Hour() != 0)
			c.Class(v.T.Date.Zone != 0, "with a timezone")
			c.Class(true, v.T.Kind)
		},
	})

	type SortCase struct{ Dates []Instant }
	h.Register(h.Spec[SortCase]{
		ID: "C32", AnySwitch: true,
		Rule: "lists of 0..60 (some: to 500) days, from few close instants in different timezones, the same instant often repeated, in any order; sorted with sort.Sort, sort.Stable and the comparison itself. " +
			"Non-trivial: at least two days are out of order and two are at the same instant or in different timezones.",
		Quick: 50000, Thorough: 1000000,
		Gen: func(t *rapid.T) SortCase {
			base := genDate(t).Unix
			most := 60
			if rapid.IntRange(0, 499).Draw(t, "many") == 377 {
				most = 500
			}
			return SortCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Instant {
				u := base + rapid.OneOf(rapid.Int64Range(-3, 3), rapid.Int64Range(-3*86400, 3*86400), rapid.Int64Range(-400*86400, 400*86400), rapid.Int64Range(-6e10, 6e10)).Draw(t, "offset")
				i := Instant{Unix: u, Nano: int64(rapid.SampledFrom([]int{0, 0, 0, 1, 999999999}).Draw(t, "nano"))}
				genPlace(t, &i, "date")
				return i
			}), most/500*100, most).Draw(t, "dates")}
		},
		Check: func(c *h.Ctx, v SortCase) {
			var ds []su.CalDay
			for i, d := range v.Dates {
				id := fmt.Sprint(i)
				ds = append(ds, su.CalDay{Date: d.Time(), Events: []su.Event{{Summary: id}}, MajorEvents: []su.MajorEvent{{Summary: id}}, UposathaMoon: su.UposathaMoonSliceSingle{{LunarYear: i}},
					HalfMoon: su.HalfMoonSliceSingle{{Phase: id}}, AstroMoon: su.AstroMoonSliceSingle{{Phase: id}}})
			}
			sl := su.CalDaySlice(ds)
			c.Check(sl.Len() == len(ds), "length %d of %d", sl.Len(), len(ds))
			outOfOrder, equal, zones := false, false, false
			for i := range ds {
				for j := range ds {
					c.Check(sl.Less(i, j) == ds[i].Date.Before(ds[j].Date), "%v before %v: %v", ds[i].Date, ds[j].Date, sl.Less(i, j))
					if i < j {
						outOfOrder = outOfOrder || ds[j].Date.Before(ds[i].Date)
						equal = equal || ds[j].Date.Equal(ds[i].Date)
						zones = zones || v.Dates[i].Zone != v.Dates[j].Zone || v.Dates[i].Loc != v.Dates[j].Loc
					}
				}
			}
			for _, how := range []func(sort.Interface){sort.Sort, sort.Stable} {
				got := append([]su.CalDay{}, ds...)
				how(su.CalDaySlice(got))
				ids := map[string]bool{}
				for i, d := range got {
					if i > 0 && d.Date.Before(got[i-1].Date) {
						c.Failf("sorted, %v comes after %v", d.Date, got[i-1].Date)
					}
					c.Check(len(d.Events) == 1 && !ids[d.Events[0].Summary], "sorted, a day is lost or doubled: %+v", d)
					ids[d.Events[0].Summary] = true
					var k int
					fmt.Sscan(d.Events[0].Summary, &k)
					c.Check(reflect.DeepEqual(d, ds[k]), "sorted, a day changed: %+v was %+v", d, ds[k])
				}
			}
			if len(ds) > 1 {
				i, j := 0, len(ds)-1
				got := append([]su.CalDay{}, ds...)
				su.CalDaySlice(got).Swap(i, j)
				c.Check(reflect.DeepEqual(got[i], ds[j]) && reflect.DeepEqual(got[j], ds[i]), "swapping the first and the last of %d days", len(ds))
			}
			c.Points(len(ds) * len(ds))
			c.NonTrivial(outOfOrder && (equal || zones))
			c.Class(equal, "same instant")
			c.Class(outOfOrder, "out of order")
			c.Class(len(ds) > 12, "over 12 days")
		},
	})

	type HalfCase struct {
		Days  []Instant
		Moons []Thing // by day; kind uposatha, or none when the text says so
		More  []Thing // on the same days
		Cap   int     // spare capacity of the list given
		Again int     // the days follow each other this many more times
	}
	h.Register(h.Spec[HalfCase]{
		ID: "C33", AnySwitch: true,
		Rule: "lists of 0..20 (some: to 400, or repeated to several thousand) days with or without an uposatha of any phase and other contents, the list on its own or part of a longer one, twice. " +
			"Non-trivial: the list has a new and a full moon and a day that adds nothing.",
		Quick: 40000, Thorough: 600000,
		Gen: func(t *rapid.T) HalfCase {
			n := rapid.IntRange(0, 20).Draw(t, "n")
			if rapid.IntRange(0, 499).Draw(t, "many") == 377 {
				n = rapid.IntRange(50, 400).Draw(t, "many days")
			}
			v := HalfCase{Cap: rapid.IntRange(0, 30).Draw(t, "spare")}
			if rapid.IntRange(0, 249).Draw(t, "again") == 177 {
				v.Again = rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(200, 600)).Draw(t, "again")
			}
			for i := 0; i < n; i++ {
				v.Days = append(v.Days, genDate(t))
				m := genThing().Draw(t, "thing")
				if rapid.Bool().Draw(t, "uposatha") {
					m.Kind = "uposatha"
				}
				if rapid.IntRange(0, 5).Draw(t, "odd phase") == 0 {
					m.Phase = rapid.SampledFrom([]string{"waxing", "waning", "", "New", "fullish"}).Draw(t, "phase")
				}
				v.Moons = append(v.Moons, m)
				if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
					v.More = append(v.More, genThing().Draw(t, "more"))
					if v.More[i].Kind == "uposatha" {
						v.More[i].Kind = "half"
					}
				} else {
					v.More = append(v.More, Thing{})
				}
			}
			return v
		},
		Check: func(c *h.Ctx, v HalfCase) {
			if n := len(v.Days); v.Again > 0 && n > 0 {
				w := HalfCase{Cap: v.Cap, Days: v.Days, Moons: v.Moons, More: v.More}
				for ; v.Again > 0 && len(w.Days) < 6000; v.Again-- {
					w.Days = append(w.Days, v.Days...)
					w.Moons = append(w.Moons, v.Moons[:n]...)
					w.More = append(w.More, v.More...)
				}
				v = w
			}
			make := func() []su.CalDay {
				ds := make([]su.CalDay, 0, len(v.Days)+v.Cap)
				for i := range v.Days {
					var d su.CalDay
					if i < len(v.More) && v.More[i].Kind != "" && v.More[i].Kind != v.Moons[i].Kind {
						v.More[i].calendarEvent().AddToDay(&d)
					}
					v.Moons[i].calendarEvent().AddToDay(&d)
					d.Date = v.Days[i].Time()
					ds = append(ds, d)
				}
				return ds
			}
			in, orig := make(), make()
			// the list is part of a longer one
			whole := in[:cap(in)]
			rest := func(i int) time.Time { return time.Unix(int64(i)*86400, 0).UTC() }
			for i := len(in); i < len(whole); i++ {
				whole[i].Date = rest(i)
			}
			got := su.AddHalfMoonDays(in)
			for i := len(in); i < len(whole); i++ {
				c.Check(whole[i].Date.Equal(rest(i)) && len(flattenDay(whole[i])) == 0, "the list given is the first %d days of a list, day %d of that is changed to %+v", len(in), i, whole[i])
			}
			for i := range got {
				if i >= len(in) {
					got[i].Events = append(got[i].Events, su.Event{Summary: "of the caller"})
				}
			}
			got2 := got
			got = su.AddHalfMoonDays(in)
			for i := len(in); i < len(got2); i++ {
				c.Check(len(got2[i].Events) == 1, "day %d of the first result is changed by the second: %+v", i, got2[i])
			}
			same := func(a, b su.CalDay) bool {
				return sameTime(a.Date, b.Date) && reflect.DeepEqual(flattenDay(a), flattenDay(b))
			}
			c.Check(len(in) == len(orig), "the list given changed")
			for i := range orig {
				c.Check(same(in[i], orig[i]), "day %d of the list given changed: %+v was %+v", i, in[i], orig[i])
				c.Check(i < len(got) && same(got[i], orig[i]), "day %d of the result is not the one given", i)
			}
			k := len(orig)
			isNew, isFull, none := false, false, false
			for i, m := range v.Moons {
				phase := map[string]string{"new": "waxing", "full": "waning"}[m.Phase]
				if m.Kind != "uposatha" || phase == "" {
					none = true
					continue
				}
				isNew, isFull = isNew || m.Phase == "new", isFull || m.Phase == "full"
				c.Check(k < len(got), "nothing was added for day %d, %s", i, eventText(m.uposatha()))
				date := v.Days[i].Time().AddDate(0, 0, 8) // by the calendar of the place
				w := su.CalDay{Date: date, HalfMoon: su.HalfMoonSliceSingle{{Date: date, Phase: phase}}}
				c.Check(same(got[k], w) && sameTime(got[k].GetHalfMoon().Date, date), "for day %d at %v, %s, was added %v %v, want %v %v", i, v.Days[i].Time(), m.Phase, got[k].Date, flattenDay(got[k]), date, flattenDay(w))
				k++
			}
			c.Check(k == len(got), "%d days too many", len(got)-k)
			c.Points(len(got))
			c.NonTrivial(isNew && isFull && none)
			c.Class(len(v.Days) == 0, "empty list")
			c.Class(none, "a day that adds nothing")
		},
	})

	type TextCase struct {
		U, A, H, E, M Thing
		Year          int
	}
	h.Register(h.Spec[TextCase]{
		ID: "C34", AnySwitch: true,
		Rule: "a thing of each of the five kinds with arbitrary attributes: their texts, and that of days holding any of the moons and of a year. Every year 638..4000 and every phase, season, uposatha day count and position is enumerated for uposathas. " +
			"Non-trivial: the uposatha has a phase and a listed season.",
		Quick: 40000, Thorough: 800000,
		Gen: func(t *rapid.T) TextCase {
			var v TextCase
			for i, p := range []*Thing{&v.U, &v.H, &v.A, &v.E, &v.M} {
				*p = genThing().Draw(t, "thing")
				p.Kind = thingKinds[i]
			}
			v.Year = rapid.OneOf(rapid.IntRange(638, 4000), rapid.IntRange(-20000, 20000)).Draw(t, "year")
			return v
		},
		Sweep: func(c *h.Ctx, yield func(TextCase) bool) {
			for _, ph := range []string{"", "new", "waxing", "full", "waning"} {
				for s := 0; s <= 4; s++ {
					for _, tot := range []int{8, 10} {
						for y := 638 + s; y <= 4000; y += 5 {
							if v := (TextCase{Year: y}); ph == "" && tot == 8 {
								for i, p := range []*Thing{&v.U, &v.H, &v.A, &v.E, &v.M} {
									p.Kind = thingKinds[i]
								}
								if !yield(v) {
									return
								}
							}
						}
						for n := 1; n <= tot; n++ {
							for ud := 14; ud <= 15; ud++ {
								v := TextCase{}
								v.U = Thing{Kind: "uposatha", Phase: ph, Num: [9]int{0, 2, n, tot, ud, 2*ud + n%2, s, s}}
								v.H, v.A = Thing{Kind: "half", Phase: ph}, Thing{Kind: "astro", Phase: phases[n%4]}
								v.E, v.M = Thing{Kind: "event", Text: [4]string{ph}}, Thing{Kind: "major", Text: [4]string{ph}}
								if !yield(v) {
									return
								}
							}
						}
					}
				}
			}
		},
		Check: func(c *h.Ctx, v TextCase) {
			for _, t := range []Thing{v.U, v.H, v.A, v.E, v.M} {
				g := t.calendarEvent().String()
				c.Check(g == t.text(), "%s reads %q, want %q", t.Kind, g, t.text())
			}
			for m := 0; m < 8; m++ { // days with any of the three moons
				var d su.CalDay
				w := [3]string{}
				for i, t := range []Thing{v.U, v.A, v.H} {
					if m>>i&1 == 1 {
						t.calendarEvent().AddToDay(&d)
						w[i] = t.text()
					}
				}
				if m%2 == 1 {
					v.E.calendarEvent().AddToDay(&d)
				}
				c.Check(d.String() == strings.Join(w[:], ", "), "the day reads %q, want %q", d.String(), strings.Join(w[:], ", "))
			}
			var fresh su.SuriyaYear
			fresh.Year = v.Year
			for _, y := range []su.SuriyaYear{yr(v.Year), fresh} {
				c.Check(y.String() == fmt.Sprint(v.Year), "year %d reads %q", v.Year, y.String())
			}
			c.Points(14)
			c.NonTrivial(v.U.Phase != "" && v.U.Num[7] >= 1 && v.U.Num[7] <= 3)
			c.Class(v.U.Phase == "", "no phase")
			c.Class(v.U.Num[7] < 1 || v.U.Num[7] > 3, "no season")
		},
	})
}
