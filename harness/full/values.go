package full

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
)

// modelDay is what a day should hold.
type modelDay struct {
	date  time.Time
	last  map[string]Thing
	lists map[string][]Thing
}

func (m modelDay) clone() modelDay {
	n := modelDay{m.date, map[string]Thing{}, map[string][]Thing{}}
	for k, t := range m.last {
		n.last[k] = t
	}
	for k, ts := range m.lists {
		n.lists[k] = append([]Thing{}, ts...)
	}
	return n
}

func zoneText(t time.Time) string { return t.Format("2006-01-02T15:04:05.999999999Z07:00:00") }

func (m modelDay) text() string {
	l := []string{zoneText(m.date)}
	for _, k := range thingKinds {
		if t, ok := m.last[k]; ok {
			l = append(l, k+" "+eventText(t.calendarEvent()))
		}
		for _, t := range m.lists[k] {
			l = append(l, k+" "+eventText(t.calendarEvent()))
		}
	}
	return strings.Join(l, "\n")
}

func dayText(d su.CalDay) string {
	l := []string{zoneText(d.Date)}
	for _, u := range d.UposathaMoon {
		l = append(l, "uposatha "+eventText(u))
	}
	for _, u := range d.HalfMoon {
		l = append(l, "half "+eventText(u))
	}
	for _, u := range d.AstroMoon {
		l = append(l, "astro "+eventText(u))
	}
	for _, u := range d.Events {
		l = append(l, "event "+eventText(u))
	}
	for _, u := range d.MajorEvents {
		l = append(l, "major "+eventText(u))
	}
	return strings.Join(l, "\n")
}

func init() {
	type ValueOp struct {
		Do   string // set, add, copy, json, halfdays, sort
		A, B int    // which of the days
		T    *Thing `json:",omitempty"`
		// events: added this often, numbered
		Times int `json:",omitempty"`
	}
	type ValueCase struct{ Ops []ValueOp }
	h.Register(h.Spec[ValueCase]{
		ID: "C41", AnySwitch: true,
		Rule: "sequences of 4..40 steps on four days: a thing of any kind set on or added to one of them, one of them copied to another (as it is, through a list with half-moon days added, by sorting a list, or through JSON); in some, events are added up to 200 at a time; the day read; all four against a model after every step. " +
			"Non-trivial: something is put on a day after it was copied, and on its copy or on it again.",
		Quick: 20000, Thorough: 300000,
		Gen: func(t *rapid.T) ValueCase {
			big := rapid.IntRange(0, 24).Draw(t, "big") == 13
			kind := rapid.SampledFrom([]string{"event", "major"}).Draw(t, "kind")
			least := rapid.SampledFrom([]int{4, 4, 12, 24}).Draw(t, "least")
			return ValueCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ValueOp {
				o := ValueOp{Do: rapid.SampledFrom([]string{"add", "add", "add", "set", "copy", "copy", "json", "halfdays", "sort"}).Draw(t, "do"), A: rapid.IntRange(0, 3).Draw(t, "a")}
				if o.Do == "add" || o.Do == "set" {
					v := genThing().Draw(t, "thing")
					if big && rapid.IntRange(0, 3).Draw(t, "again") > 0 {
						v.Kind = kind
					}
					if o.Do == "set" && (v.Kind == "event" || v.Kind == "major") {
						v.Kind = "half"
					}
					o.T = &v
					if big && (v.Kind == "event" || v.Kind == "major") {
						o.Times = rapid.OneOf(rapid.IntRange(2, 40), rapid.IntRange(20, 200)).Draw(t, "times")
					}
				} else {
					o.B = rapid.IntRange(0, 3).Draw(t, "b")
				}
				return o
			}), least, 40).Draw(t, "ops")}
		},
		Check: func(c *h.Ctx, v ValueCase) {
			days := make([]su.CalDay, 4)
			model := make([]modelDay, 4)
			for i := range model {
				model[i] = modelDay{}.clone()
			}
			linked := map[[2]int]bool{} // shares history with
			puts := map[int]int{}
			nt := false
			for i, o := range v.Ops {
				switch o.Do {
				case "add":
					for k := 1; k < o.Times; k++ {
						x := *o.T
						x.Text[0] += fmt.Sprint(" ", k)
						x.calendarEvent().AddToDay(&days[o.A])
						model[o.A].lists[x.Kind] = append(model[o.A].lists[x.Kind], x)
					}
					o.T.calendarEvent().AddToDay(&days[o.A])
					model[o.A].date = o.T.Date.Time()
				case "set":
					switch o.T.Kind {
					case "uposatha":
						days[o.A].SetUposathaMoon(o.T.uposatha())
					case "half":
						days[o.A].SetHalfMoon(o.T.half())
					case "astro":
						days[o.A].SetAstroMoon(o.T.astro())
					}
				case "copy":
					days[o.B] = days[o.A]
				case "json":
					b, err := json.Marshal(days[o.A])
					var back su.CalDay
					if err == nil {
						err = json.Unmarshal(b, &back)
					}
					c.Check(err == nil, "op %d: JSON: %v", i, err)
					days[o.B] = back
				case "halfdays":
					out := su.AddHalfMoonDays([]su.CalDay{days[o.A], days[o.B]})
					c.Check(len(out) >= 2, "op %d: adding half-moon days gives %d days", i, len(out))
					days[o.B] = out[0]
				case "sort":
					l := []su.CalDay{days[o.A], days[o.A]}
					sort.Sort(su.CalDaySlice(l))
					days[o.B] = l[1]
				}
				if o.T != nil {
					m := &model[o.A]
					if o.T.Kind == "event" || o.T.Kind == "major" {
						m.lists[o.T.Kind] = append(m.lists[o.T.Kind], *o.T)
					} else {
						m.last[o.T.Kind] = *o.T
					}
					for j := range days {
						nt = nt || linked[[2]int{o.A, j}] && puts[j] > 0
					}
					puts[o.A]++
				} else if o.A != o.B {
					model[o.B] = model[o.A].clone()
					for j := range days {
						delete(linked, [2]int{o.B, j})
						delete(linked, [2]int{j, o.B})
					}
					linked[[2]int{o.A, o.B}], linked[[2]int{o.B, o.A}] = true, true
					puts[o.A], puts[o.B] = 0, 0
				}
				_, _, _, _ = days[o.A].GetUposathaMoon(), days[o.A].GetHalfMoon(), days[o.A].GetAstroMoon(), days[o.A].String()
				for j := range days {
					if g, w := dayText(days[j]), model[j].text(); g != w {
						c.Failf("op %d %s on day %d: day %d holds\n%s\nwant\n%s", i, o.Do, o.A, j, g, w)
					}
				}
				c.Points(4)
			}
			c.NonTrivial(nt)
			for _, m := range model {
				c.Class(len(m.lists["event"]) > 2 || len(m.lists["major"]) > 2, "more than two events")
				c.Class(len(m.lists["event"]) > 100 || len(m.lists["major"]) > 100, "more than a hundred events")
			}
		},
	})
}
