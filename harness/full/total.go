package full

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// Call is one use of the library with any arguments at all.
type Call struct {
	Op   string
	Year int      `json:",omitempty"`
	N    int64    `json:",omitempty"`
	Bits uint64   `json:",omitempty"` // a float
	Text string   `json:",omitempty"`
	A    Instant  `json:",omitzero"`
	B    Instant  `json:",omitzero"`
	M    *AnyMoon `json:",omitempty"`
	Days []*Thing `json:",omitempty"`
}

// AnyMoon is an uposatha as nobody would make it.
type AnyMoon struct {
	Date  Instant
	Phase string
	Text  string
	Num   [9]int
	Flag  bool
}

func (m AnyMoon) uposatha() su.UposathaMoon {
	return su.UposathaMoon{Date: m.Date.Time(), Phase: m.Phase, Event: m.Text, Calendar: m.Num[0], Status: m.Num[1], S_Number: m.Num[2], S_Total: m.Num[3], U_Days: m.Num[4], M_Days: m.Num[5],
		LunarMonth: m.Num[6], LunarSeason: m.Num[7], LunarYear: m.Num[8], HasAdhikavara: m.Flag, Source: m.Text, Comments: m.Text}
}

// anyInstant is any time of the years 1 to 9999, the zero time among them.
func anyInstant(t *rapid.T, name string) Instant {
	i := Instant{Unix: rapid.OneOf(rapid.Just(int64(-62135596800)), rapid.Int64Range(-62135596800+2*86400, 253402300799-2*86400), rapid.Int64Range(-3000000000, 5000000000)).Draw(t, name)}
	if i.Unix != -62135596800 {
		i.Nano = rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(0, 999999999)).Draw(t, name+" nano")
		genPlace(t, &i, name)
	}
	return i
}

func anyText() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"", "/", ".", "..", "//", "/data", "/data/astro", "/data/astro/", "data", "\x00", "/data/astro/astro-2015.json/", "/data/astro/astro-2015.json", "new", "full", "ǆ", "ß", "\xff\xfe", "null"}),
		rapid.String(), rapid.StringMatching(`/(data|astro|\.|\.\.|/){1,6}`), rapid.Map(rapid.SliceOf(rapid.Byte()), func(b []byte) string { return string(b) }))
}

func moonOrZero(t *rapid.T) *AnyMoon {
	m := &AnyMoon{Date: anyInstant(t, "date"), Phase: rapid.OneOf(rapid.SampledFrom([]string{"new", "full", "", "New", "waxing"}), anyText()).Draw(t, "phase"), Text: fmt.Sprintf("%q", anyText().Draw(t, "text")), Flag: rapid.Bool().Draw(t, "flag")}
	m.Phase = fmt.Sprintf("%q", m.Phase)
	m.Phase = m.Phase[1 : len(m.Phase)-1]
	for i := range m.Num {
		m.Num[i] = rapid.OneOf(rapid.IntRange(-2, 20), rapid.IntRange(-1000000, 1000000), rapid.SampledFrom([]int{math.MaxInt32, math.MinInt32})).Draw(t, "number")
	}
	return m
}

var callOps = []string{"year", "asalha", "listing", "day", "horakhun", "degree", "ral", "names", "season", "asset", "next", "text", "range", "moons", "decode", "halfdays", "sort", "ical", "put"}

func init() {
	type TotalCase struct{ Calls []Call }
	h.Register(h.Spec[TotalCase]{
		ID: "C37",
		Rule: "sequences of 1..6 calls of every exported operation with any arguments: years -20000..20000, days and horakhuns by the million, every float with infinities and NaN, any bytes as names, paths, phases and JSON, times of the years 1..9999 and the zero time, moons with any numbers. " +
			"No call panics, runs on for a minute of CPU time, runs out of memory or blocks. Non-trivial: an argument outside of what the calendar is for.",
		Quick: 20000, Thorough: 400000,
		Gen: func(t *rapid.T) TotalCase {
			return TotalCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Call {
				q := Call{Op: rapid.SampledFrom(callOps).Draw(t, "op")}
				anyYear := rapid.OneOf(rapid.IntRange(-20000, 20000), rapid.IntRange(-10, 10), rapid.IntRange(620, 660), rapid.IntRange(1980, 2040))
				switch q.Op {
				case "year":
					q.Year = rapid.OneOf(anyYear, rapid.IntRange(-1000000000, 1000000000)).Draw(t, "year")
				case "asalha", "listing":
					q.Year = anyYear.Draw(t, "year")
				case "day":
					q.Year, q.N = rapid.OneOf(anyYear, rapid.IntRange(-1000000000, 1000000000)).Draw(t, "year"), rapid.OneOf(rapid.Int64Range(-500, 500), rapid.Int64Range(-1000000000, 1000000000)).Draw(t, "day")
				case "horakhun":
					q.N = rapid.OneOf(rapid.Int64Range(-2000000, 2000000), rapid.Int64Range(-1000000000, 1000000000)).Draw(t, "horakhun")
				case "degree":
					f := rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e18, -1e18, 360, -360})).Draw(t, "degree")
					q.Bits = math.Float64bits(f)
				case "ral":
					q.Year, q.N = rapid.Int().Draw(t, "x"), rapid.Int64().Draw(t, "y")
				case "names", "asset", "text", "decode":
					q.Text = fmt.Sprintf("%q", anyText().Draw(t, "text"))
					q.M = moonOrZero(t)
					q.N = int64(rapid.IntRange(0, 6).Draw(t, "kind"))
				case "season":
					q.Year = rapid.Int().Draw(t, "number")
				case "next":
					q.M = moonOrZero(t)
					q.N = int64(rapid.IntRange(1, 30).Draw(t, "steps"))
				case "range", "moons":
					q.A = anyInstant(t, "from")
					q.B = q.A
					switch rapid.IntRange(0, 3).Draw(t, "span") {
					case 0:
						q.B = anyInstant(t, "to")
						if q.B.Unix-q.A.Unix > 40*31556952 && rapid.IntRange(0, 29).Draw(t, "long") < 29 {
							q.A, q.B = q.B, q.A
						}
					case 1:
						q.B.Unix += rapid.Int64Range(-31556952, 4*31556952).Draw(t, "seconds")
					case 2:
						q.B.Unix += rapid.Int64Range(-864000, 864000).Draw(t, "seconds")
					}
				case "halfdays", "sort", "ical", "put":
					q.Days = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) *Thing {
						v := genThing().Draw(t, "thing")
						v.Date = anyInstant(t, "date")
						return &v
					}), 0, 5).Draw(t, "days")
				}
				return q
			}), 1, 6).Draw(t, "calls")}
		},
		Sweep: func(c *h.Ctx, yield func(TotalCase) bool) {
			for y := -1200; y <= 800; y += 3 {
				if !yield(TotalCase{[]Call{{Op: "year", Year: y}, {Op: "asalha", Year: y}, {Op: "listing", Year: y}, {Op: "day", Year: y, N: int64(y)}}}) {
					return
				}
			}
			for y := 4000; y <= 20000; y += 97 {
				if !yield(TotalCase{[]Call{{Op: "year", Year: y}, {Op: "asalha", Year: y}, {Op: "listing", Year: y}, {Op: "day", Year: y, N: int64(y)}}}) {
					return
				}
			}
			for y := 1; y < 9999; y += 101 {
				a := Instant{Unix: ref.FromCivil(y, 1, 1).Unix()}
				if !yield(TotalCase{[]Call{{Op: "range", A: a, B: Instant{Unix: a.Unix + 86400*400}}, {Op: "moons", A: a, B: Instant{Unix: a.Unix + 86400*400}}}}) {
					return
				}
			}
			// the longest ranges
			all := [2]Instant{{Unix: ref.FromCivil(1, 1, 1).Unix()}, {Unix: ref.FromCivil(9999, 12, 31).Unix() + 86399}}
			for _, op := range []string{"range", "moons"} {
				if !yield(TotalCase{[]Call{{Op: op, A: all[0], B: all[1]}}}) || !yield(TotalCase{[]Call{{Op: op, A: all[1], B: all[0]}}}) {
					return
				}
			}
			for s := -5; s <= 5; s++ {
				if !yield(TotalCase{[]Call{{Op: "season", Year: s}}}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v TotalCase) {
			for _, q := range v.Calls {
				if total(c, q) {
					c.NonTrivial(true)
				}
				c.Class(true, q.Op)
				c.Points(1)
			}
		},
	})
}

func unquote(s string) string {
	if out, err := strconv.Unquote(s); err == nil {
		return out
	}
	return s
}

// total makes one call and drops what it gives; whether it is an odd one.
func total(c *h.Ctx, q Call) bool {
	odd := q.Year < 641 || q.Year > 4000
	switch q.Op {
	case "year":
		s := yr(q.Year)
		_ = fmt.Sprint(s.Is_Adhikamasa(), s.Would_Be_Adhikamasa(), s.Is_Adhikavara(), s.Would_Be_Adhikavara(), s.Has_Carried_Adhikavara(), s.Is_Suriya_Leap(), s.YearLength(), s.DeltaAdhikamasa(), s.DeltaAdhikavara(),
			s.AdhikavaraCyclePos(), s.AdhikamasaCyclePos(), s.SuriyaValuesString(), s.String())
	case "asalha":
		yr(q.Year).AsalhaPuja()
		su.CalculatePreviousKattika(q.Year)
	case "listing":
		su.GenerateSolarYear(q.Year)
	case "day":
		var d su.SuriyaDay
		d.Init(q.Year, int(q.N))
		odd = odd || q.N < 0 || q.N > 385
	case "horakhun":
		su.HorakhunToDate(q.N)
		odd = q.N < 0 || q.N > 2000000
	case "degree":
		f := math.Float64frombits(q.Bits)
		su.DegreeToRal(f)
		_ = su.DegreeToRalString(f)
		su.NormalizeDegree(f)
		odd = !(f >= 0 && f < 360)
	case "ral":
		su.RalToDegree(q.Year, int(q.N), int(q.N))
	case "names":
		s := unquote(q.Text)
		_ = fmt.Sprint(su.MonthToInt(s), su.SeasonToInt(s), su.CalendarToInt(s), su.StatusToInt(s))
		odd = true
	case "season":
		su.SeasonName(q.Year)
	case "asset":
		s := unquote(q.Text)
		su.FSByte(false, s)
		su.FSString(false, s)
		mustNotHang := func(f func()) { // may panic, on a missing file
			defer func() { recover() }()
			f()
		}
		mustNotHang(func() { su.FSMustByte(false, s) })
		mustNotHang(func() { su.FSMustString(false, s) })
		if f, err := su.FS(false).Open(s); err == nil {
			st, err := f.Stat()
			if err == nil {
				_ = fmt.Sprint(st.Name(), st.Size(), st.IsDir(), st.Mode(), st.ModTime())
			}
			io.Copy(io.Discard, f)
			f.Close()
		}
		if f, err := su.Dir(false, s).Open(s); err == nil {
			io.Copy(io.Discard, f)
			f.Close()
		}
		odd = true
	case "next":
		u := q.M.uposatha()
		for i := int64(0); i < q.N; i++ {
			u = u.NextUposatha()
		}
		_ = u.String()
		odd = true
	case "text":
		s := unquote(q.Text)
		d := q.M.Date.Time()
		m := q.M.uposatha()
		m.Phase = s
		for _, e := range []su.CalendarEvent{m, su.HalfMoon{Date: d, Phase: s}, su.AstroMoon{Date: d, Phase: s}, su.Event{Date: d, Summary: s}, su.MajorEvent{Date: d, Summary: s}} {
			_ = e.String()
			var day su.CalDay
			e.AddToDay(&day)
			_ = day.String()
			e.GetDate()
		}
		_ = su.CalDay{}.String()
		odd = true
	case "range":
		a, b := q.A.Time(), q.B.Time()
		su.AddHalfMoonDays(su.GetCalDays(a, b))
		odd = b.Before(a) || a.Year() < 641 || a.Year() > 4000
	case "moons":
		su.GetAstroMoons(q.A.Time(), q.B.Time())
		odd = q.B.Time().Before(q.A.Time()) || q.A.Time().Year() < 1902 || q.A.Time().Year() > 2033
	case "decode":
		s := unquote(q.Text)
		var day su.CalDay
		var u su.UposathaMoon
		var y su.SuriyaYear
		for _, text := range []string{s, `{"UposathaMoon":` + s + `}`, `{"UposathaMoon":[` + s + `]}`, `{"Date":"` + s + `"}`, `{"UposathaMoon":null,"HalfMoon":[],"Events":[{}]}`} {
			json.Unmarshal([]byte(text), &day)
			json.Unmarshal([]byte(text), &u)
			json.Unmarshal([]byte(text), &y)
			_ = day.String() + u.String() + y.String()
			day.GetUposathaMoon()
			day.GetHalfMoon()
			day.GetAstroMoon()
		}
		odd = true
	case "halfdays", "sort", "ical", "put":
		var ds []su.CalDay
		for i, t := range q.Days {
			e := t.calendarEvent()
			if i%2 == 0 || len(ds) == 0 {
				ds = append(ds, su.CalDay{})
			}
			e.AddToDay(&ds[len(ds)-1])
			if q.Op == "ical" {
				t.ical()
			}
		}
		if q.Op == "halfdays" {
			su.AddHalfMoonDays(ds)
			su.AddHalfMoonDays(nil)
		}
		sort.Sort(su.CalDaySlice(ds))
		if len(ds) == 0 {
			ds = append(ds, su.CalDay{Date: time.Time{}})
		}
		json.Marshal(ds)
		_ = ds[0].String()
		odd = len(q.Days) == 0
	default:
		h.Fatal("call %q", q.Op)
	}
	return odd
}
