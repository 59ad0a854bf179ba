package full

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/soh335/ical"
	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/core"
	"verif/h"
	"verif/ref"
)

// Query is one question to the library, with all it needs to be asked again.
type Query struct {
	Op   string
	Year int     `json:",omitempty"`
	N    int     `json:",omitempty"`
	From Instant `json:",omitzero"`
	To   Instant `json:",omitzero"`
	Name string  `json:",omitempty"`
}

// Answer is what came back: a text, and how far it is from the reference.
type Answer struct {
	Text  string
	Wrong string
	Ruin  func()        // the caller changes what it was given
	Now   func() string // what the caller was given, as it is now
}

func yearStatusWant(y int, exc bool) string {
	dm, dv := 1, 1
	for dm < 8 && !ref.Adhikamasa(y-dm) {
		dm++
	}
	for dv < 14 && !ref.Adhikavara(y-dv, exc) {
		dv++
	}
	if dm == 8 {
		dm = -1
	}
	if dv == 14 {
		dv = -1
	}
	return fmt.Sprint(ref.Adhikamasa(y), ref.QualifiesM(y), ref.Adhikavara(y, exc), ref.QualifiesV(y), ref.Carried(y), ref.Leap(y), ref.Length(y, exc), dm, dv,
		ref.FloorMod(int64(y-1984), 57)+1, ref.FloorMod(int64(y-1984), 19)+1)
}

// shared is a result that several goroutines read at the same time.
type shared struct {
	once sync.Once
	days []su.CalDay
	year su.SuriyaYear
	day  su.SuriyaDay
	text string
}

var (
	sharedLock sync.Mutex
	sharedAll  = map[string]*shared{}
)

func sharedFor(q Query) *shared {
	key := fmt.Sprint(su.UseExceptions, q.From.Unix, q.From.Nano, q.To.Unix, q.To.Nano)
	sharedLock.Lock()
	defer sharedLock.Unlock()
	if sharedAll[key] == nil {
		if len(sharedAll) > 100 {
			clear(sharedAll)
		}
		sharedAll[key] = &shared{}
	}
	return sharedAll[key]
}

// read gives all that can be read from it.
func (sh *shared) read() string {
	var b strings.Builder
	for i := range sh.days {
		d := &sh.days[i]
		fmt.Fprintln(&b, d.Date, d.String(), d.GetUposathaMoon(), d.GetHalfMoon(), d.GetAstroMoon())
		var es []su.CalendarEvent
		for j := range d.UposathaMoon {
			es = append(es, &d.UposathaMoon[j])
			fmt.Fprintln(&b, uposathaText(d.UposathaMoon[j].NextUposatha()))
		}
		for j := range d.HalfMoon {
			es = append(es, &d.HalfMoon[j])
		}
		for j := range d.AstroMoon {
			es = append(es, &d.AstroMoon[j])
		}
		for j := range d.MajorEvents {
			es = append(es, &d.MajorEvents[j])
		}
		for _, e := range es {
			v := e.(interface{ IcalEvent() ical.VEvent }).IcalEvent()
			fmt.Fprintln(&b, e.String(), e.GetDate(), v.SUMMARY, v.DTSTART, v.DTEND)
			var own su.CalDay
			e.AddToDay(&own)
		}
		own := *d
		own.SetHalfMoon(su.HalfMoon{})
		su.Event{Summary: "own"}.AddToDay(&own)
		su.MajorEvent{Summary: "own"}.AddToDay(&own)
	}
	js, err := json.Marshal(sh.days)
	fmt.Fprintln(&b, string(js), err, sort.IsSorted(su.CalDaySlice(sh.days)))
	half := su.AddHalfMoonDays(sh.days)
	fmt.Fprintln(&b, len(half))
	half = su.AddHalfMoonDays(sh.days[:len(sh.days)/2])
	fmt.Fprintln(&b, len(half))
	s := &sh.year
	fmt.Fprintln(&b, s.Is_Adhikamasa(), s.Would_Be_Adhikamasa(), s.Is_Adhikavara(), s.Would_Be_Adhikavara(), s.Has_Carried_Adhikavara(), s.Is_Suriya_Leap(), s.YearLength(), s.DeltaAdhikamasa(), s.DeltaAdhikavara(),
		s.AdhikavaraCyclePos(), s.AdhikamasaCyclePos(), s.AsalhaPuja(), s.SuriyaValuesString(), s.String(), sh.day)
	return b.String()
}

// Ask puts one query; pure of the harness's own lazily built state when
// Prepare was called.
func Ask(q Query) (a Answer) {
	switch q.Op {
	case "year":
		s := yr(q.Year)
		before := s
		st := fmt.Sprint(s.Is_Adhikamasa(), s.Would_Be_Adhikamasa(), s.Is_Adhikavara(), s.Would_Be_Adhikavara(), s.Has_Carried_Adhikavara(), s.Is_Suriya_Leap(), s.YearLength(), s.DeltaAdhikamasa(), s.DeltaAdhikavara(),
			s.AdhikavaraCyclePos(), s.AdhikamasaCyclePos())
		a.Text = st + "|" + s.SuriyaValuesString() + "|" + s.String()
		if !reflect.DeepEqual(s, before) {
			a.Wrong = fmt.Sprintf("the queries of year %d changed it", q.Year)
		}
	case "asalha":
		a.Text = stampZone(yr(q.Year).AsalhaPuja())
	case "kattika":
		a.Text = stampZone(su.CalculatePreviousKattika(q.Year))
	case "day":
		var d su.SuriyaDay
		d.Init(q.Year, q.N)
		a.Text = fmt.Sprintf("%+v", d)
		if m := core.DayDiff(d, q.Year, q.N); m != "" {
			a.Wrong = fmt.Sprintf("day %d of %d: %s", q.N, q.Year, m)
		}
	case "next":
		us := ref.Uposathas(q.Year, su.UseExceptions)
		u := refUposatha(us[((q.N%len(us))+len(us))%len(us)], 2)
		before := u
		n := u.NextUposatha()
		a.Text = uposathaText(n)
		if !reflect.DeepEqual(u, before) {
			a.Wrong = "asking for the next uposatha changed the one asked"
		}
	case "listing":
		l := su.GenerateSolarYear(q.Year)
		a.Now = func() string {
			var t []string
			for _, e := range l {
				t = append(t, eventText(e))
			}
			return strings.Join(t, "\n")
		}
		a.Text = a.Now()
		a.Ruin = func() {
			for i := range l {
				l[i] = su.Event{Summary: "ruined"}
			}
			_ = append(l[:0], l[len(l)/2:]...)
		}
	case "range":
		from, to := q.From.Time(), q.To.Time()
		ds := su.GetCalDays(from, to)
		a.Text = daysText(ds)
		a.Now = func() string { return daysText(ds) }
		a.Ruin = func() { ruinDays(ds) }
		appendDays(ds)
		if daysText(ds) != a.Text {
			a.Wrong = "adding to one entry of the result changed another"
		}
	case "shared": // the same result read by everybody who asks for it
		sh := sharedFor(q)
		sh.once.Do(func() {
			sh.days = su.GetCalDays(q.From.Time(), q.To.Time())
			sh.year = yr(q.From.Time().UTC().Year())
			sh.day.Init(q.From.Time().UTC().Year(), 100)
			sh.text = sh.read()
		})
		if t := sh.read(); t != sh.text {
			a.Wrong = fmt.Sprintf("a result that is only read reads as\n%s\nand later as\n%s", clipText(sh.text, 500), clipText(t, 500))
		}
		a.Text = daysText(sh.days)
	case "halfdays":
		ds := su.GetCalDays(q.From.Time(), q.To.Time())
		before := daysText(ds)
		ds2 := su.AddHalfMoonDays(ds)
		a.Text = daysText(ds2)
		if daysText(ds) != before {
			a.Wrong = "adding half-moon days changed the days given"
		}
		a.Now = func() string { return daysText(ds2) }
		a.Ruin = func() { ruinDays(ds2) }
	case "json":
		ds := su.GetCalDays(q.From.Time(), q.To.Time())
		b, err := json.Marshal(ds)
		var back []su.CalDay
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if err != nil {
			a.Wrong = "JSON: " + err.Error()
		}
		a.Text = daysText(back)
		a.Ruin = func() { ruinDays(ds) }
	case "ical":
		var t []string
		seen := map[string]bool{}
		for _, e := range su.GenerateSolarYear(q.Year) {
			ie, ok := e.(interface{ IcalEvent() ical.VEvent })
			if !ok {
				a.Wrong = fmt.Sprintf("%T has no iCalendar form", e)
				continue
			}
			v := ie.IcalEvent()
			if v.UID == "" || seen[v.UID] {
				a.Wrong = fmt.Sprintf("identifier %q is not its own", v.UID)
			}
			seen[v.UID] = true
			t = append(t, fmt.Sprint(stamp(v.DTSTART), " ", stamp(v.DTEND), " ", v.TZID, " ", v.AllDay, " ", v.SUMMARY))
		}
		a.Text = strings.Join(t, "\n")
	case "open", "dir", "local":
		var b []byte
		var f http.File
		var err error
		switch q.Op {
		case "open":
			f, err = su.FS(false).Open("/data/astro/" + q.Name)
		case "dir":
			f, err = su.Dir(false, "/data").Open("/astro/" + q.Name)
		case "local":
			f, err = su.FS(true).Open("/data/astro/" + q.Name)
		}
		if err == nil {
			b, err = io.ReadAll(f)
			f.Close()
		}
		a.Text = fmt.Sprint(err != nil, "|", string(b))
	case "moons":
		ms := su.GetAstroMoons(q.From.Time(), q.To.Time())
		a.Now = func() string {
			var t []string
			for _, m := range ms {
				t = append(t, eventText(m))
			}
			return strings.Join(t, "\n")
		}
		a.Text = a.Now()
		a.Ruin = func() {
			for i := range ms {
				ms[i] = su.AstroMoon{Phase: "ruined"}
			}
		}
	case "horakhun":
		a.Text = stampZone(su.HorakhunToDate(int64(q.N)))
	case "asset":
		s, err := su.FSString(false, "/data/astro/"+q.Name)
		a.Text = fmt.Sprint(err != nil, "|", s)
	case "localbytes": // every way to read a local file; an empty name is the directory
		name := "/data/astro/" + q.Name
		b, err := su.FSByte(true, name)
		a.Text = fmt.Sprint(err != nil, "|", string(b))
		s, err2 := su.FSString(true, name)
		must := func(get func() string) (text string) {
			defer func() {
				if recover() != nil {
					text = "true|"
				}
			}()
			return "false|" + get()
		}
		for _, t := range []string{fmt.Sprint(err2 != nil, "|", s), must(func() string { return string(su.FSMustByte(true, name)) }), must(func() string { return su.FSMustString(true, name) })} {
			if t != a.Text {
				a.Wrong = fmt.Sprintf("reading it in other ways gives\n%s\nand\n%s", clipText(a.Text, 300), clipText(t, 300))
			}
		}
	case "names":
		a.Text = fmt.Sprint(su.MonthToInt(q.Name), su.SeasonToInt(q.Name), su.CalendarToInt(q.Name), su.StatusToInt(q.Name), "|", su.SeasonName(q.N))
	case "degree":
		x, y, z := su.DegreeToRal(float64(q.N) / 100)
		a.Text = fmt.Sprintf("%d %d %d|%s|%.6f|%.6f", x, y, z, su.DegreeToRalString(float64(q.N)/100), su.RalToDegree(x, y, z), su.NormalizeDegree(float64(q.N)/100))
	default:
		h.Fatal("query %q", q.Op)
	}
	return a
}

func stampZone(t time.Time) string { return stamp(t) + " " + t.Location().String() }

func daysText(ds []su.CalDay) string {
	var b strings.Builder
	for _, d := range ds {
		b.WriteString(stampZone(d.Date) + "\n")
		for _, l := range flattenDay(d) {
			b.WriteString("  " + l + "\n")
		}
	}
	return b.String()
}

// appendDays adds to every entry's lists without keeping the result: with
// lists of its own for each entry nothing changes.
func appendDays(ds []su.CalDay) {
	for i := range ds {
		_ = append(ds[i].UposathaMoon, su.UposathaMoon{Phase: "ruined"})
		_ = append(ds[i].HalfMoon, su.HalfMoon{Phase: "ruined"})
		_ = append(ds[i].AstroMoon, su.AstroMoon{Phase: "ruined"})
		_ = append(ds[i].MajorEvents, su.MajorEvent{Summary: "ruined"})
		_ = append(ds[i].Events, su.Event{Summary: "ruined"})
	}
}

func ruinDays(ds []su.CalDay) {
	for i := range ds {
		for j := range ds[i].UposathaMoon {
			ds[i].UposathaMoon[j] = su.UposathaMoon{Phase: "ruined"}
		}
		for j := range ds[i].HalfMoon {
			ds[i].HalfMoon[j] = su.HalfMoon{Phase: "ruined"}
		}
		for j := range ds[i].AstroMoon {
			ds[i].AstroMoon[j] = su.AstroMoon{Phase: "ruined"}
		}
		for j := range ds[i].MajorEvents {
			ds[i].MajorEvents[j] = su.MajorEvent{Summary: "ruined"}
		}
		ds[i].Events = append(ds[i].Events, su.Event{Summary: "ruined"})
		if i%2 == 0 {
			ds[i] = su.CalDay{}
		}
	}
}

// Judge compares an answer with the reference; "" when it is right.
func Judge(q Query, a Answer, exc bool) string {
	if a.Wrong != "" {
		return a.Wrong
	}
	want := ""
	switch q.Op {
	case "year":
		r := ref.NewYear(q.Year)
		want = yearStatusWant(q.Year, exc) + "|" + fmt.Sprintf("CE: %d\nBE: %d\nCS: %d\nHorakhun: %d\nKammacubala: %d\nUccabala: %d\nAvoman: %d\nMasaken: %d\nTithi: %d\n",
			r.CE, r.BE, r.CS, r.Horakhun, r.Kammacubala, r.Uccabala, r.Avoman, r.Masaken, r.Tithi) + "|" + fmt.Sprint(q.Year)
		// the layout of the text is not what this property is about
		if strings.Join(strings.Fields(a.Text), " ") == strings.Join(strings.Fields(want), " ") {
			return ""
		}
	case "asalha":
		want = stampZone(dayTime(ref.Asalha(q.Year, exc)))
	case "kattika":
		want = stampZone(dayTime(ref.Kattika(q.Year, exc)))
	case "day":
		return ""
	case "next":
		us := append(ref.Uposathas(q.Year, exc), ref.Uposathas(q.Year+1, exc)[0])
		n := len(us) - 1
		want = uposathaText(refUposatha(us[((q.N%n)+n)%n+1], 0))
	case "listing":
		if d := diff(strings.Split(a.Text, "\n"), refListing(q.Year, exc, "")); d != "" {
			return d
		}
		return ""
	case "ical":
		var w []string
		for _, e := range ref.SolarYear(q.Year, exc) {
			t := dayTime(e.Day)
			w = append(w, fmt.Sprint(stamp(t), " ", stamp(t.Add(24*time.Hour)), " UTC true ", refSummary(e)))
		}
		return diff(strings.Split(a.Text, "\n"), w)
	case "range", "json", "shared":
		return daysDiff(a.Text, append(astroRange(q.From.Time(), q.To.Time()), refRange(q.From.Time(), q.To.Time(), exc)...))
	case "halfdays":
		w := append(astroRange(q.From.Time(), q.To.Time()), refRange(q.From.Time(), q.To.Time(), exc)...)
		for _, l := range append([]string{}, w...) {
			if f := strings.Fields(l); f[0] == "uposatha" {
				t, err := time.Parse("2006-01-02T15:04:05", f[1])
				if err != nil {
					h.Fatal("%v", err)
				}
				w = append(w, "half "+stamp(t.AddDate(0, 0, 8))+" "+map[string]string{"new": "waxing", "full": "waning"}[f[2]])
			}
		}
		return daysDiff(a.Text, w)
	case "moons":
		want = strings.Join(astroRange(q.From.Time(), q.To.Time()), "\n")
	case "horakhun":
		want = stampZone(time.Unix(ref.DayOfHorakhun(int64(q.N)).Unix()+86399, 0).UTC())
	case "asset", "open", "dir", "local", "localbytes":
		files, _ := core.Disk()
		b, ok := files[q.Name]
		want = fmt.Sprint(!ok, "|", string(b))
		if a.Text != want {
			return fmt.Sprintf("%s %q is not the file (%d bytes) but %s", q.Op, q.Name, len(b), clipText(a.Text, 100))
		}
	case "names":
		var sn string
		if q.N >= 1 && q.N <= 3 {
			sn = []string{"Hemanta", "Gimha", "Vassāna"}[q.N-1]
		}
		want = fmt.Sprint(core.Lookup("month", q.Name), core.Lookup("season", q.Name), core.Lookup("calendar", q.Name), core.Lookup("status", q.Name), "|", sn)
	case "degree":
		// the exact conversion is another property's; here it must be stable
		deg := float64(q.N) / 100
		n := deg - 360*math.Floor(deg/360)
		if !strings.HasSuffix(a.Text, fmt.Sprintf("|%.6f", n)) && math.Abs(n-360) > 1e-6 {
			return fmt.Sprintf("%s: normalised should be %.6f", a.Text, n)
		}
		return ""
	}
	if a.Text != want {
		return fmt.Sprintf("is\n   %s\nwant\n   %s", a.Text, want)
	}
	return ""
}

func daysDiff(text string, want []string) string {
	var got []string
	for _, l := range strings.Split(text, "\n") {
		if e, ok := strings.CutPrefix(l, "  "); ok {
			got = append(got, e)
		}
	}
	return diff(got, want)
}

// Prepare builds the harness's own lazily read data.
func Prepare() {
	diskAstro()
	core.Disk()
}

func genQuery() *rapid.Generator[Query] {
	ky := rapid.OneOf(rapid.IntRange(1992, 1998), rapid.IntRange(1992, 1998), rapid.IntRange(2014, 2017), rapid.SampledFrom([]int{645, 1000, 1402, 1788, 1901, 1910, 1970, 2033, 2037, 3000, 3572}), years(645, 3990))
	_, names := core.Disk()
	return rapid.Custom(func(t *rapid.T) Query {
		q := Query{Op: rapid.SampledFrom([]string{"year", "asalha", "kattika", "day", "next", "listing", "range", "range", "json", "ical", "moons", "halfdays", "horakhun", "asset", "open", "dir", "local", "names", "degree"}).Draw(t, "op")}
		switch q.Op {
		case "year", "asalha", "kattika", "listing", "ical":
			q.Year = ky.Draw(t, "year")
			if q.Op == "year" && rapid.IntRange(0, 3).Draw(t, "far") == 3 {
				// far from the others by what a table of answers would have
				q.Year += rapid.IntRange(1, 3).Draw(t, "times") << rapid.IntRange(5, 33).Draw(t, "far by")
			}
		case "day":
			q.Year, q.N = ky.Draw(t, "year"), rapid.IntRange(-20, 400).Draw(t, "day")
		case "next":
			q.Year, q.N = ky.Draw(t, "year"), rapid.IntRange(0, 25).Draw(t, "uposatha")
		case "range", "json", "moons", "halfdays":
			y := ky.Draw(t, "year")
			q.From = Instant{Unix: ref.FromCivil(y, 1, 1).Unix() + int64(rapid.IntRange(0, 3).Draw(t, "quarter"))*7776000}
			days := rapid.IntRange(0, 500)
			switch rapid.IntRange(0, 59).Draw(t, "long") {
			case 50, 51, 52, 53, 54:
				days = rapid.IntRange(300, 12*366)
			case 59:
				days = rapid.IntRange(300, 150*366)
			}
			q.To = Instant{Unix: min(q.From.Unix+int64(days.Draw(t, "days"))*86400, ref.FromCivil(3995, 1, 1).Unix()), Zone: rapid.SampledFrom([]int{0, 25200}).Draw(t, "zone")}
		case "horakhun":
			q.N = rapid.IntRange(-100000, 1300000).Draw(t, "horakhun")
		case "asset", "open", "dir", "local":
			q.Name = rapid.OneOf(rapid.SampledFrom(names), rapid.SampledFrom([]string{"astro-1994.json", "astro-1995.json", "astro-2015.json", "astro-1899.json", "nothing"})).Draw(t, "file")
		case "names":
			q.Name, q.N = rapid.SampledFrom([]string{"kattika", "2nd asalha", "vassana", "mahanikaya", "myanmar", "confirmed", "other"}).Draw(t, "name"), rapid.IntRange(0, 4).Draw(t, "season")
		case "degree":
			q.N = rapid.IntRange(-80000, 80000).Draw(t, "degree")
		}
		return q
	})
}

func exceptionsText() string {
	var s []string
	for y, b := range su.AdhikavaraExceptions {
		s = append(s, fmt.Sprint(y, b))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func init() {
	type Step struct {
		Q     Query
		Flip  bool // switch the exceptions before it
		Ruin  bool // change the result after it
		Again int  // ask the n-th query before once more after it, 0 none
	}
	type History struct{ Steps []Step }
	h.Register(h.Spec[History]{
		ID: "C25",
		Rule: "sequences of 3..25 queries of every kind, mostly over the same few years, with switches of the exceptions between them and results changed by the caller; each answer against the reference for the setting in force, repeated queries against the first answer, and results the caller kept against what they were. " +
			"Non-trivial: a query is repeated after a switch back or after its result was changed.",
		Quick: 8000, Thorough: 100000,
		Gen: func(t *rapid.T) History {
			g := genQuery()
			return History{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Step {
				return Step{g.Draw(t, "query"), rapid.IntRange(0, 3).Draw(t, "flip") == 0, rapid.IntRange(0, 1).Draw(t, "ruin") == 0, rapid.IntRange(0, 6).Draw(t, "again")}
			}), 3, 25).Draw(t, "steps")}
		},
		Check: func(c *h.Ctx, v History) {
			Prepare()
			for _, s := range v.Steps {
				if s.Q.Op == "local" {
					c.InRepo()
				}
			}
			first := map[string]string{}
			ruined := map[string]bool{}
			flips := 0
			table := exceptionsText()
			exc := false
			su.UseExceptions = false
			nt := false
			type kept struct {
				a Answer
				i int
				q Query
			}
			var keep []kept
			same := func(ks []kept) {
				for _, k := range ks {
					c.Check(k.a.Now() == k.a.Text, "the result of step %d %+v, kept by the caller, has become\n%s\nit was\n%s", k.i, k.q, k.a.Now(), k.a.Text)
				}
			}
			ask := func(i int, q Query, ruin bool) {
				key := fmt.Sprintf("%v %+v", exc, q)
				a := Ask(q)
				if m := Judge(q, a, exc); m != "" {
					c.Failf("step %d %+v (exceptions %v): %s", i, q, exc, m)
				}
				c.Check(su.UseExceptions == exc, "step %d %+v changed the exceptions switch", i, q)
				c.Check(exceptionsText() == table, "step %d %+v changed the table of exceptions: %s", i, q, exceptionsText())
				if t, ok := first[key]; ok {
					c.Check(t == a.Text, "step %d %+v (exceptions %v) answers\n%s\nbefore it was\n%s", i, q, exc, a.Text, t)
					nt = nt || flips >= 2 || ruined[key]
				} else {
					first[key] = a.Text
				}
				same(keep[max(0, len(keep)-2):])
				if ruin && a.Ruin != nil {
					a.Ruin()
					ruined[key] = true
				} else if a.Now != nil {
					keep = append(keep, kept{a, i, q})
				}
				c.Points(1)
			}
			for i, s := range v.Steps {
				if s.Flip {
					exc = !exc
					su.UseExceptions = exc
					flips++
				}
				ask(i, s.Q, s.Ruin)
				if s.Again > 0 && i-s.Again+1 >= 0 {
					ask(i, v.Steps[i-s.Again+1].Q, false)
				}
			}
			same(keep)
			c.NonTrivial(nt)
			c.Class(flips >= 2, "switched at least twice")
			c.Class(len(ruined) > 0, "a result was changed")
		},
	})
}
