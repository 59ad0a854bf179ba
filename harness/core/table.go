package core

import (
	"fmt"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// TabOp is a step of a caller who keeps an own table of exceptions.
type TabOp struct {
	Op   string // on, off, set, del, new, gap, year, asalha, kattika, delta, listing, chain
	Year int
	V    bool `json:",omitempty"`
	N    int  `json:",omitempty"`
}

func init() {
	type TabCase struct{ Ops []TabOp }
	h.Register(h.Spec[TabCase]{
		ID: "C36",
		Rule: "sequences of setting and deleting entries (single ones, or such that up to eleven years have no adhikavara, or for up to a hundred years on end) of the table of exceptions (in place or as a new map, also none at all), switching, and queries of status, length, Kattika, Asalha Puja, distances and listings around the entries and anywhere in 660..4000; each answer against the reference with that table. " +
			"Entries make only years adhikavara that are not adhikamasa. Non-trivial: a query with the switch on and an entry in force that changes its year.",
		Quick: 12000, Thorough: 240000,
		Gen: func(t *rapid.T) TabCase {
			pool := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1985, 2040), years(700, 3900)), 1, 4).Draw(t, "pool")
			ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) TabOp {
				o := TabOp{Op: rapid.SampledFrom([]string{"on", "set", "set", "off", "del", "new", "gap", "many", "nil", "year", "asalha", "kattika", "delta", "delta", "listing", "chain"}).Draw(t, "op")}
				switch o.Op {
				case "on", "off", "new", "nil":
				default:
					o.Year = rapid.SampledFrom(pool).Draw(t, "year")
					if o.Op == "set" {
						// an entry that only says what the rules say anyway is rarer
						o.V = ref.Adhikavara(o.Year, false) != (rapid.IntRange(0, 4).Draw(t, "differs") > 0)
						if ref.Adhikamasa(o.Year) {
							o.V = false
						}
					} else if o.Op == "gap" {
						o.N = rapid.IntRange(1, 11).Draw(t, "years")
					} else if o.Op == "many" {
						o.N = rapid.IntRange(5, 100).Draw(t, "entries")
					} else if o.Op != "del" {
						o.Year += rapid.SampledFrom([]int{0, 0, 0, 1, -1, 1, 2, -2, 5, -5, -30, 30}).Draw(t, "off")
					}
				}
				return o
			}), 4, 40).Draw(t, "ops")
			return TabCase{append([]TabOp{{Op: "on"}}, ops...)}
		},
		Sweep: func(c *h.Ctx, yield func(TabCase) bool) {
			for y := 700; y <= 3900; y++ {
				if ref.Adhikamasa(y) {
					continue
				}
				v := !ref.Adhikavara(y, false)
				ops := []TabOp{{Op: "on"}, {Op: "set", Year: y, V: v}}
				for _, q := range []int{y, y - 1, y + 1, 2015, 2016, 2017} {
					ops = append(ops, TabOp{Op: "year", Year: q}, TabOp{Op: "asalha", Year: q}, TabOp{Op: "kattika", Year: q}, TabOp{Op: "delta", Year: q})
				}
				for d := 2; d <= 7; d++ {
					ops = append(ops, TabOp{Op: "delta", Year: y + d})
				}
				if y%10 == 0 {
					ops = append(ops, TabOp{Op: "gap", Year: y, N: 11})
					for d := -3; d <= 0; d++ {
						ops = append(ops, TabOp{Op: "delta", Year: y + d})
					}
				}
				ops = append(ops, TabOp{Op: "listing", Year: y}, TabOp{Op: "listing", Year: y + 1}, TabOp{Op: "off"}, TabOp{Op: "year", Year: y}, TabOp{Op: "asalha", Year: y},
					TabOp{Op: "on"}, TabOp{Op: "del", Year: y}, TabOp{Op: "year", Year: y}, TabOp{Op: "kattika", Year: y}, TabOp{Op: "kattika", Year: y + 1})
				if y%25 == 0 {
					ops = append(ops, TabOp{Op: "many", Year: y, N: 100}, TabOp{Op: "year", Year: y + 50}, TabOp{Op: "kattika", Year: y + 99}, TabOp{Op: "listing", Year: y + 98}, TabOp{Op: "nil"}, TabOp{Op: "year", Year: y}, TabOp{Op: "kattika", Year: y + 99})
				}
				if !yield(TabCase{ops}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v TabCase) {
			exc, nt := false, false
			tab := map[int]bool{}
			for y, x := range su.AdhikavaraExceptions {
				tab[y] = x
			}
			put := func() {
				m := map[int]bool{}
				for y, x := range tab {
					m[y] = x
				}
				su.AdhikavaraExceptions = m
			}
			put()
			ref.SetTable(tab)
			for i, o := range v.Ops {
				what := fmt.Sprintf("op %d, %s %d with the exceptions %v in force %v", i, o.Op, o.Year, tab, exc)
				hit := false
				for y, x := range tab {
					hit = hit || exc && x != ref.Adhikavara(y, false) && o.Year >= y-1 && o.Year <= y+1
				}
				switch o.Op {
				case "on", "off":
					exc = o.Op == "on"
					su.UseExceptions = exc
					continue
				case "set":
					tab[o.Year] = o.V
					if su.AdhikavaraExceptions == nil {
						put()
					}
					su.AdhikavaraExceptions[o.Year] = o.V
					continue
				case "del":
					delete(tab, o.Year)
					delete(su.AdhikavaraExceptions, o.Year)
					continue
				case "gap":
					// no year of the last few is adhikavara
					for k := 1; k <= o.N; k++ {
						if y := o.Year - k; !ref.Adhikamasa(y) && ref.Adhikavara(y, true) {
							tab[y] = false
						}
					}
					put()
					continue
				case "many":
					// entries of many years, by turns adding a day and taking it back
					added := false
					for k, y := 0, o.Year; k < o.N && y < 3990; k, y = k+1, y+1 {
						if ref.Adhikamasa(y) {
							continue
						}
						tab[y] = ref.Adhikavara(y, false)
						if tab[y] == added {
							tab[y] = !added
							added = !added
						}
					}
					put()
					continue
				case "nil":
					tab = map[int]bool{}
					ref.SetTable(tab)
					su.AdhikavaraExceptions = nil
					continue
				case "new":
					put()
					continue
				case "year":
					s := yr(o.Year)
					c.Check(s.Is_Adhikavara() == ref.Adhikavara(o.Year, exc), "%s: adhikavara %v", what, s.Is_Adhikavara())
					c.Check(s.Is_Adhikamasa() == ref.Adhikamasa(o.Year), "%s: adhikamasa %v", what, s.Is_Adhikamasa())
					c.Check(s.YearLength() == ref.Length(o.Year, exc), "%s: %d days, want %d", what, s.YearLength(), ref.Length(o.Year, exc))
				case "asalha":
					midnight(c, what, yr(o.Year).AsalhaPuja(), ref.Asalha(o.Year, exc))
				case "kattika":
					midnight(c, what, su.CalculatePreviousKattika(o.Year), ref.Kattika(o.Year, exc))
				case "chain":
					a, b := su.CalculatePreviousKattika(o.Year), su.CalculatePreviousKattika(o.Year+1)
					n := yr(o.Year).YearLength()
					c.Check(b.Sub(a) == time.Duration(n)*24*time.Hour, "%s: %v between the Kattikas, the year has %d days", what, b.Sub(a), n)
				case "delta":
					d := 1
					for d <= 12 && !ref.Adhikavara(o.Year-d, exc) {
						d++
					}
					if d <= 12 {
						g := yr(o.Year).DeltaAdhikavara()
						c.Check(g == d, "%s: %d, want %d", what, g, d)
						c.Class(d > 7, "more than seven years")
					}
				case "listing":
					if ListingQuery != nil {
						if m := ListingQuery(o.Year, exc); m != "" {
							c.Failf("%s: %s", what, m)
						}
					}
				}
				nt = nt || hit
				c.Points(1)
				c.Check(su.UseExceptions == exc && fmt.Sprint(su.AdhikavaraExceptions) == fmt.Sprint(tab), "%s: the switch is %v and the table %v after it", what, su.UseExceptions, su.AdhikavaraExceptions)
			}
			c.NonTrivial(nt)
			c.Class(len(tab) > 3, "more than three entries")
			c.Class(len(tab) > 32, "more than 32 entries")
			_, a := tab[1994]
			_, b := tab[1997]
			c.Class(!a || !b, "a usual entry deleted")
		},
	})
}
