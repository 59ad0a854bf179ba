// Package ref holds reference models written from the documented rules; it
// does not import the code under test.
package ref

// Civil days, counted from 1970-01-01 (proleptic Gregorian).
type Day int64

func FromCivil(y, m, d int) Day {
	yy := int64(y)
	if m <= 2 {
		yy--
	}
	era := floorDiv(yy, 400)
	yoe := yy - era*400
	mp := int64((m + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return Day(era*146097 + doe - 719468)
}

func (d Day) Civil() (y, m, dd int) {
	z := int64(d) + 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	yy := yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	dd = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		yy++
	}
	return int(yy), m, dd
}

func (d Day) Year() int { y, _, _ := d.Civil(); return y }

// Unix gives the seconds of midnight UTC of the day.
func (d Day) Unix() int64 { return int64(d) * 86400 }

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func floorMod(a, b int64) int64 { return a - floorDiv(a, b)*b }

// FloorMod for the harnesses.
func FloorMod(a, b int64) int64 { return floorMod(a, b) }

const HorakhunEpochShift = 484049

// DayOfHorakhun: 1963-07-05 is day 484049 of the era.
func DayOfHorakhun(h int64) Day { return FromCivil(1963, 7, 5) + Day(h-HorakhunEpochShift) }

// HorakhunElements are the elements that depend on the day count only.
type HorakhunElements struct{ Uccabala, Avoman, Masaken, Tithi int64 }

func ElementsOfHorakhun(h int64) HorakhunElements {
	e := h*11 + 650
	t := floorDiv(e, 692) + h
	return HorakhunElements{
		Uccabala: floorMod(h+2611, 3232),
		Avoman:   floorMod(e, 692),
		Masaken:  floorDiv(t, 30),
		Tithi:    floorMod(t, 30),
	}
}

type Year struct {
	CE, BE, CS            int64
	Horakhun, Kammacubala int64
	HorakhunElements
}

func NewYear(ce int) Year {
	y := Year{CE: int64(ce), BE: int64(ce) + 543, CS: int64(ce) - 638}
	n := y.CS*292207 + 373
	y.Horakhun = floorDiv(n, 800) + 1
	y.Kammacubala = 800 - floorMod(n, 800)
	y.HorakhunElements = ElementsOfHorakhun(y.Horakhun)
	return y
}

// MinYear is the first year for which the rules look back only to years of the era.
const (
	MinYear = 638
	maxYear = 21000
)

type flags struct {
	leap, qualM, qualV, adhikamasa, adhikavara, adhikavaraX, carried bool
	length, lengthX                                                  int
}

var tab []flags
var kat, katX []Day // kattika full moon before the year

func in(y int) bool { return y >= MinYear+1 && y <= maxYear }

func at(y int) *flags {
	if y > maxYear {
		return far(y)
	}
	if !in(y) {
		panic("ref: year out of range")
	}
	return &tab[y-MinYear]
}

// far gives the flags of a year after those in the table.
func far(y int) *flags {
	f := &flags{leap: Leap(y), qualM: QualifiesM(y), qualV: QualifiesV(y)}
	f.adhikamasa = f.qualM && !QualifiesM(y+1)
	f.carried = QualifiesM(y-1) && !f.qualM && QualifiesV(y-1)
	f.adhikavara = !f.adhikamasa && (f.qualV || f.carried)
	f.adhikavaraX = f.adhikavara
	f.length = 354
	if f.adhikamasa {
		f.length = 384
	} else if f.adhikavara {
		f.length = 355
	}
	f.lengthX = f.length
	return f
}

func init() {
	n := maxYear - MinYear + 2
	tab = make([]flags, n)
	for i := range tab {
		y := NewYear(MinYear + i)
		f := &tab[i]
		f.leap = y.Kammacubala <= 207
		f.qualM = y.Tithi >= 24 || y.Tithi <= 5
		if f.leap {
			f.qualV = y.Avoman <= 126
		} else {
			f.qualV = y.Avoman < 137
		}
	}
	for i := 0; i+1 < n; i++ {
		tab[i].adhikamasa = tab[i].qualM && !tab[i+1].qualM
	}
	for i := 1; i+1 < n; i++ {
		f := &tab[i]
		f.carried = tab[i-1].adhikamasa && tab[i-1].qualV
		f.adhikavara = !f.adhikamasa && (f.qualV || f.carried)
		f.adhikavaraX = f.adhikavara
		switch MinYear + i {
		case 1994:
			f.adhikavaraX = false
		case 1997:
			f.adhikavaraX = true
		}
		ln := func(v bool) int {
			switch {
			case f.adhikamasa:
				return 354 + 30
			case v:
				return 354 + 1
			}
			return 354
		}
		f.length, f.lengthX = ln(f.adhikavara), ln(f.adhikavaraX)
	}
	kat, katX = make([]Day, n), make([]Day, n)
	base := 2016 - MinYear
	kat[base], katX[base] = FromCivil(2015, 11, 25), FromCivil(2015, 11, 25)
	for i := base; i+2 < n; i++ {
		kat[i+1] = kat[i] + Day(tab[i].length)
		katX[i+1] = katX[i] + Day(tab[i].lengthX)
	}
	for i := base - 1; i >= 1; i-- {
		kat[i] = kat[i+1] - Day(tab[i].length)
		katX[i] = katX[i+1] - Day(tab[i].lengthX)
	}
}

func Leap(y int) bool       { return NewYear(y).Kammacubala <= 207 }
func QualifiesM(y int) bool { t := NewYear(y).Tithi; return t >= 24 || t <= 5 }
func QualifiesV(y int) bool {
	n := NewYear(y)
	if n.Kammacubala <= 207 {
		return n.Avoman <= 126
	}
	return n.Avoman < 137
}
func Adhikamasa(y int) bool { return at(y).adhikamasa }
func Carried(y int) bool    { return at(y).carried }
func Adhikavara(y int, exceptions bool) bool {
	if exceptions {
		if table != nil {
			if v, ok := table[y]; ok {
				return v
			}
			return at(y).adhikavara
		}
		return at(y).adhikavaraX
	}
	return at(y).adhikavara
}
func Length(y int, exceptions bool) int {
	if exceptions {
		if table != nil {
			return at(y).length + shift(y)
		}
		return at(y).lengthX
	}
	return at(y).length
}

// table is what counts as exceptions instead of 1994 and 1997 when set. It
// may make a year adhikavara only when the year is not adhikamasa.
var table map[int]bool

// SetTable sets the table of exceptions, nil the usual one.
func SetTable(m map[int]bool) { table = m }

// shift is by how many days an entry of the table changes the year's length.
func shift(y int) int {
	v, ok := table[y]
	switch {
	case !ok || v == at(y).adhikavara:
		return 0
	case v:
		return 1
	}
	return -1
}

// Kattika is the full moon that ends the lunar year before year y.
func Kattika(y int, exceptions bool) Day {
	if !in(y) {
		panic("ref: year out of range")
	}
	if exceptions && table != nil {
		// between the known Kattika, the one before 2016, and this one
		k := kat[y-MinYear]
		for e := range table {
			if e >= 2016 && e < y {
				k += Day(shift(e))
			}
			if e < 2016 && e >= y {
				k -= Day(shift(e))
			}
		}
		return k
	}
	if exceptions {
		return katX[y-MinYear]
	}
	return kat[y-MinYear]
}

// Asalha Puja: the full moon ending the 8th month (or the second 8th).
func Asalha(y int, exceptions bool) Day {
	n := 4 * (30 + 29)
	if Adhikamasa(y) {
		n += 30
	} else if Adhikavara(y, exceptions) {
		n++
	}
	return Kattika(y, exceptions) + Day(n)
}

// Uposatha is one uposatha of the lunar calendar.
type Uposatha struct {
	Day           Day
	Full          bool
	Month         int // 1..12, 13 second Asalha
	MDays, UDays  int
	Season        int
	SNumber       int
	STotal        int
	LunarYear     int // BE
	HasAdhikavara bool
	Event         string
}

// Uposathas of lunar year y: from the new moon of Magasira to Kattika.
func Uposathas(y int, exceptions bool) []Uposatha {
	m, v := Adhikamasa(y), Adhikavara(y, exceptions)
	order := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	if m {
		order = []int{1, 2, 3, 4, 5, 6, 7, 8, 13, 9, 10, 11, 12}
	}
	event := map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
	if m {
		event = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
	}
	day := Kattika(y, exceptions)
	var out []Uposatha
	inSeason := map[int]int{}
	for _, mon := range order {
		u := Uposatha{Month: mon, LunarYear: y + 543, MDays: 29, STotal: 8}
		if mon%2 == 1 {
			u.MDays = 30
		}
		if mon == 8 && v && !m {
			u.MDays, u.HasAdhikavara = 30, true
		}
		switch {
		case mon <= 4:
			u.Season = 1
		case mon <= 8 || mon == 13:
			u.Season = 2
			if m {
				u.STotal = 10
			}
		default:
			u.Season = 3
		}
		u.UDays = u.MDays - 15
		day += Day(u.UDays)
		u.Day = day
		inSeason[u.Season]++
		u.SNumber = inSeason[u.Season]
		out = append(out, u)
		f := u
		f.Full, f.UDays, f.HasAdhikavara = true, 15, false
		day += 15
		f.Day = day
		inSeason[f.Season]++
		f.SNumber = inSeason[f.Season]
		f.Event = event[mon]
		out = append(out, f)
	}
	return out
}

// Event of the listing of a solar year.
type Event struct {
	Kind    string // uposatha, half, major
	Day     Day
	U       Uposatha
	Phase   string // of half moons
	Summary string // of major events
}

func Phase(full bool) string {
	if full {
		return "full"
	}
	return "new"
}

func HalfPhase(full bool) string {
	if full {
		return "waning"
	}
	return "waxing"
}

var majorNames = map[string]string{"magha": "Māgha Pūjā", "vesakha": "Vesākha Pūjā", "asalha": "Āsāḷha Pūjā", "pavarana": "Pavāraṇā Day"}

const FirstVassa, LastVassa = "First day of Vassa", "Last day of Vassa"

// EventsOfLunarYear lists what belongs to the uposathas of lunar year y.
func EventsOfLunarYear(y int, exceptions bool) []Event {
	var out []Event
	for _, u := range Uposathas(y, exceptions) {
		out = append(out, Event{Kind: "uposatha", Day: u.Day, U: u})
		out = append(out, Event{Kind: "half", Day: u.Day + 8, Phase: HalfPhase(u.Full)})
		if u.Event != "" {
			out = append(out, Event{Kind: "major", Day: u.Day, Summary: majorNames[u.Event]})
		}
		switch u.Event {
		case "asalha":
			out = append(out, Event{Kind: "major", Day: u.Day + 1, Summary: FirstVassa})
		case "pavarana":
			out = append(out, Event{Kind: "major", Day: u.Day, Summary: LastVassa})
		}
	}
	return out
}

// SolarYear lists the events whose date is in the solar year.
func SolarYear(y int, exceptions bool) []Event {
	var out []Event
	a, b := FromCivil(y, 1, 1), FromCivil(y+1, 1, 1)
	for l := y - 1; l <= y+1; l++ {
		if !in(l) {
			continue
		}
		for _, e := range EventsOfLunarYear(l, exceptions) {
			if e.Day >= a && e.Day < b {
				out = append(out, e)
			}
		}
	}
	return out
}
