package core

import (
	"strings"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
)

var lookups = map[string]struct {
	f func(string) int
	m map[string]int
}{
	"month": {su.MonthToInt, map[string]int{"null": 0, "magasira": 1, "phussa": 2, "magha": 3, "phagguna": 4, "citta": 5, "vesakha": 6, "jettha": 7, "asalha": 8,
		"2nd asalha": 13, "savana": 9, "bhaddapada": 10, "assayuja": 11, "kattika": 12}},
	"season":   {su.SeasonToInt, map[string]int{"null": 0, "hemanta": 1, "gimhana": 2, "vassana": 3}},
	"calendar": {su.CalendarToInt, map[string]int{"mahanikaya": 0, "dhammayut": 1, "srilanka": 2, "myanmar": 3}},
	"status":   {su.StatusToInt, map[string]int{"draft": 0, "predicted": 1, "confirmed": 2}},
}

var lookupKinds = []string{"calendar", "month", "season", "status"}

func init() {
	type NameCase struct {
		Kind, Name string
		Number     int
	}
	var all []string
	for _, k := range lookupKinds {
		for n := range lookups[k].m {
			all = append(all, n)
		}
	}
	sortStrings(all)
	h.Register(h.Spec[NameCase]{
		ID: "C30", AnySwitch: true,
		Rule:  "every listed name in every table and season numbers -50..50 enumerated, every name with one character more, less or other, plus arbitrary strings (case variants, neighbours of listed names, any text) and numbers. Non-trivial: the name is listed in another table, or differs from a listed one by case or one character.",
		Quick: 150000, Thorough: 3000000,
		Gen: func(t *rapid.T) NameCase {
			base := rapid.SampledFrom(all)
			mut := rapid.Custom(func(t *rapid.T) string {
				s := base.Draw(t, "base")
				switch rapid.IntRange(0, 9).Draw(t, "how") {
				case 0:
					return strings.ToUpper(s[:1]) + s[1:]
				case 1:
					return s + " "
				case 2:
					return s[:rapid.IntRange(1, len(s)-1).Draw(t, "len")]
				case 3:
					i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
					return s[:i] + rapid.StringMatching("[a-z ]").Draw(t, "c") + s[i+1:]
				case 4:
					return " " + s
				case 5:
					return strings.ToUpper(s)
				case 6: // with a word before it
					return rapid.OneOf(rapid.SampledFrom([]string{"1st", "2nd", "first", "second", "adhika", "the", "patthama", "dutiya"}), rapid.StringMatching("[a-z0-9]{1,4}")).Draw(t, "before") + rapid.SampledFrom([]string{" ", "-", "_", ""}).Draw(t, "sep") + s
				case 7: // or after
					return s + rapid.SampledFrom([]string{" ", "-", "_", ""}).Draw(t, "sep") + rapid.OneOf(rapid.SampledFrom([]string{"1", "2", "masa", "māsa", "season", "nikaya", "i", "ii"}), rapid.StringMatching("[a-z0-9]{1,4}")).Draw(t, "after")
				case 8: // with diacritics
					return strings.NewReplacer("a", "ā", "i", "ī", "u", "ū").Replace(s)
				default:
					return s + rapid.StringMatching("[a-z]").Draw(t, "c")
				}
			})
			return NameCase{rapid.SampledFrom(lookupKinds).Draw(t, "kind"), rapid.OneOf(base, mut, rapid.String()).Draw(t, "name"),
				rapid.OneOf(rapid.IntRange(-3, 6), rapid.Int()).Draw(t, "number")}
		},
		Sweep: func(c *h.Ctx, yield func(NameCase) bool) {
			for _, k := range lookupKinds {
				for i, n := range all {
					if !yield(NameCase{k, n, i - 3}) {
						return
					}
				}
			}
			// every name with one character more, less or other than it has
			for _, k := range lookupKinds {
				for _, n := range all {
					for b := 0; b < 128; b++ {
						if !yield(NameCase{k, string(rune(b)) + n, 0}) || !yield(NameCase{k, n + string(rune(b)), 0}) {
							return
						}
					}
					for i := range n {
						if !yield(NameCase{k, n[:i] + n[i+1:], 0}) || !yield(NameCase{k, n[:i] + strings.ToUpper(n[i:i+1]) + n[i+1:], 0}) || !yield(NameCase{k, n[:i] + n[i:i+1] + n[i:], 0}) ||
							!yield(NameCase{k, n[:i] + " " + n[i:], 0}) || !yield(NameCase{k, n[:i], 0}) || !yield(NameCase{k, n[i:], 0}) {
							return
						}
					}
				}
			}
			for i := -50; i <= 50; i++ {
				if !yield(NameCase{"month", "", i}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v NameCase) {
			l := lookups[v.Kind]
			want, listed := l.m[v.Name]
			got := l.f(v.Name)
			c.Check(got == want, "%s code of %q is %d, want %d", v.Kind, v.Name, got, want)
			season := map[int]string{1: "Hemanta", 2: "Gimha", 3: "Vassāna"}[v.Number]
			c.Check(su.SeasonName(v.Number) == season, "name of season %d is %q, want %q", v.Number, su.SeasonName(v.Number), season)
			// distinct names have distinct codes
			seen := map[int]string{}
			for n := range l.m {
				if n == "null" {
					continue
				}
				g := l.f(n)
				if o, ok := seen[g]; ok {
					c.Failf("%s names %q and %q share code %d", v.Kind, n, o, g)
				}
				seen[g] = n
			}
			c.Points(2 + len(l.m))
			near := false
			for _, n := range all {
				near = near || (!listed && strings.EqualFold(strings.TrimSpace(v.Name), n)) || (!listed && len(v.Name) > 3 && len(n) > 3 && (strings.HasPrefix(v.Name, n) || strings.HasPrefix(n, v.Name)))
				near = near || (!listed && (v.Name == n || strings.HasSuffix(v.Name, n)))
			}
			c.NonTrivial(near)
			c.Class(listed, "listed")
			c.Class(near, "near a listed name")
		},
	})
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
