package core

import (
	"fmt"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/ref"
)

// Years draws a year, favouring ends, documented years and epochs.
func Years(lo, hi int) *rapid.Generator[int] { return years(lo, hi) }

// FarYears has one in sixteen after hi, up to 12000.
func FarYears(lo, hi int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if rapid.IntRange(0, 15).Draw(t, "far") == 15 {
			return rapid.OneOf(rapid.IntRange(9990, 10003), rapid.IntRange(hi+1, 12000)).Draw(t, "far year")
		}
		return years(lo, hi).Draw(t, "year")
	})
}

// YearDiff compares the elements of a year with the reference; "" when equal.
func YearDiff(s su.SuriyaYear, y int) string {
	for _, e := range yearElems(s, ref.NewYear(y)) {
		if e.got != e.want {
			return fmt.Sprintf("%s of %d is %d, want %d", e.name, y, e.got, e.want)
		}
	}
	return ""
}

// DayDiff compares the elements and positions of a day with the reference.
func DayDiff(s su.SuriyaDay, y, d int) string {
	r := ref.NewYear(y)
	hk := r.Horakhun + int64(d) - r.Tithi
	e := ref.ElementsOfHorakhun(hk)
	want := [5]int{int(hk), int(e.Uccabala), int(e.Avoman), int(e.Masaken), int(e.Tithi)}
	if dayInts(s) != want {
		return fmt.Sprintf("elements %v, want %v", dayInts(s), want)
	}
	return positionDiff(s, ref.DayPosition(y, d))
}

// Disk gives the data files of the tree and their names.
func Disk() (map[string][]byte, []string) { return disk() }

// Lookup gives the code a name has in a table, 0 when it is not listed.
func Lookup(kind, name string) int { return lookups[kind].m[name] }

// PublishedTable is the repository's committed years table.
var PublishedTable = yearsCSV
