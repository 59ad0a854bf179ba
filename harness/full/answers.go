package full

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// StoredMoon is what cmd/answers prints of a moon.
type StoredMoon struct {
	Unix  int64
	Nano  int
	Zone  int
	Phase string
}

// ServiceAnswer is one of the service, stored for a year.
type ServiceAnswer struct {
	Year     int
	Failed   bool   // success is false
	Code     string // of the error
	Text     string // its description
	NoError  string // how no error is written: null, or the member is left out ("none")
	Moons    []ServiceMoon
	Null     bool // the response is null (when there are no moons)
	Spaces   bool // spread over lines
	Backward bool // the members in another order
	More     bool // members that nobody asked for
}

type ServiceMoon struct {
	Second int // of the year
	Offset int // minutes of the time's text from UTC
	Code   int
	Name   string
	Nano   int  `json:",omitempty"` // a fraction of a second
	Bare   bool `json:",omitempty"` // without a timestamp
}

func (a ServiceAnswer) instant(m ServiceMoon) int64 {
	return ref.FromCivil(a.Year, 1, 1).Unix() + int64(m.Second)
}

func (a ServiceAnswer) iso(m ServiceMoon) string {
	t := time.Unix(a.instant(m), int64(m.Nano)).In(time.FixedZone("", m.Offset*60))
	if m.Offset == 0 && m.Second%2 == 0 {
		return t.UTC().Format("2006-01-02T15:04:05.999999999Z")
	}
	return t.Format("2006-01-02T15:04:05.999999999-07:00")
}

// text is the answer as JSON, written here member by member.
func (a ServiceAnswer) text() string {
	nl, sp := "", ""
	if a.Spaces {
		nl, sp = "\n  ", " "
	}
	str := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	object := func(ms ...string) string {
		if a.Backward {
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		return "{" + nl + strings.Join(ms, ","+nl) + nl + "}"
	}
	member := func(k, v string) string { return str(k) + sp + ":" + sp + v }
	var rs []string
	for _, m := range a.Moons {
		ms := []string{member("timestamp", strconv.FormatInt(a.instant(m), 10)), member("dateTimeISO", str(a.iso(m))), member("code", strconv.Itoa(m.Code)), member("name", str(m.Name))}
		if m.Bare {
			ms = ms[1:]
		}
		if a.More {
			ms = append(ms, member("illum", "0.5"), member("place", object(member("name", str("london")), member("code", "7"))))
		}
		rs = append(rs, object(ms...))
	}
	top := []string{member("success", strconv.FormatBool(!a.Failed))}
	if a.Code != "" || a.Text != "" {
		top = append(top, member("error", object(member("code", str(a.Code)), member("description", str(a.Text)))))
	} else if a.NoError != "none" {
		top = append(top, member("error", "null"))
	}
	if a.More {
		top = append(top, member("version", str("1.1")), member("moons", "[1,2]"))
	}
	if a.Null && len(rs) == 0 {
		top = append(top, member("response", "null"))
	} else {
		top = append(top, member("response", "["+strings.Join(rs, ","+nl)+"]"))
	}
	return object(top...)
}

func init() {
	type Span struct{ From, To int64 } // nanoseconds since 1970
	type AnswerCase struct {
		Files  []ServiceAnswer
		Ranges []Span
	}
	phaseName := [4]string{"new", "waxing", "full", "waning"}
	h.Register(h.Spec[AnswerCase]{
		ID: "C44",
		Rule: "1..5 generated answers of the service, of 0..6 (some: to 260) records (successful, not successful, with an error, empty, a year left out; times with any offset, some with a fraction of a second, some without the timestamp; members in any order, of other names, spread over lines) decoded as AerisResp, and stored as the files of their years, of which 1..4 ranges are asked. " +
			"Non-trivial: answers that give nothing beside ones whose moons are in a range.",
		Quick: 1500, Thorough: 40000,
		Gen: func(t *rapid.T) AnswerCase {
			var v AnswerCase
			y := rapid.IntRange(1900, 2036).Draw(t, "year")
			first := y
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "files"); i < n && y <= 2040; i++ {
				a := ServiceAnswer{Year: y}
				y += rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "step")
				switch rapid.IntRange(0, 6).Draw(t, "kind") {
				case 0:
					a.Failed = true
				case 1:
					a.Failed = rapid.Bool().Draw(t, "failed")
					fallthrough
				case 2:
					a.Code = rapid.SampledFrom([]string{"warn_no_data", "invalid_client", "x", " ", "0"}).Draw(t, "error")
					fallthrough
				case 3:
					a.Text = rapid.SampledFrom([]string{"", "No data was returned for the request.", "\"quoted\" ā"}).Draw(t, "description")
				}
				a.NoError = rapid.SampledFrom([]string{"null", "none"}).Draw(t, "no error")
				least, most := 0, 6
				if rapid.IntRange(0, 24).Draw(t, "many") == 13 {
					least, most = 40, 260
				}
				a.Moons = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ServiceMoon {
					return ServiceMoon{rapid.OneOf(rapid.IntRange(0, 365*86400-1), rapid.SampledFrom([]int{0, 1, 365*86400 - 1})).Draw(t, "second"), rapid.SampledFrom([]int{0, 0, 60, -300, 345, -210, 840}).Draw(t, "offset"),
						rapid.IntRange(0, 3).Draw(t, "code"), rapid.SampledFrom([]string{"new moon", "first quarter", "full moon", "last quarter", "", "full"}).Draw(t, "name"),
						rapid.SampledFrom([]int{0, 0, 0, 0, 500000000, 1, 999999999, 120000000}).Draw(t, "fraction"), rapid.IntRange(0, 7).Draw(t, "bare") == 5}
				}), least, most).Draw(t, "moons")
				a.Null, a.Spaces, a.Backward, a.More = rapid.Bool().Draw(t, "null"), rapid.Bool().Draw(t, "spaces"), rapid.Bool().Draw(t, "backward"), rapid.Bool().Draw(t, "more")
				v.Files = append(v.Files, a)
			}
			var at []int64
			for _, a := range v.Files {
				for _, m := range a.Moons {
					at = append(at, a.instant(m))
				}
			}
			end := func(name string) int64 {
				s := ref.FromCivil(first, 1, 1).Unix() + int64(rapid.IntRange(-400*86400, 7*366*86400).Draw(t, name))
				if len(at) > 0 && rapid.IntRange(0, 3).Draw(t, name+" at a moon") > 0 {
					s = rapid.SampledFrom(at).Draw(t, name+" moon")
				}
				return s*1e9 + rapid.SampledFrom([]int64{0, 0, 1, -1, 1e9, -1e9, 5e8}).Draw(t, name+" off")
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "ranges"); i < n; i++ {
				s := Span{end("from"), end("to")}
				if s.From > s.To && rapid.IntRange(0, 5).Draw(t, "as it is") > 0 {
					s.From, s.To = s.To, s.From
				}
				v.Ranges = append(v.Ranges, s)
			}
			return v
		},
		Check: func(c *h.Ctx, v AnswerCase) {
			// decoded
			for _, a := range v.Files {
				var r su.AerisResp
				if err := json.Unmarshal([]byte(a.text()), &r); err != nil {
					c.Failf("answer %s: %v", a.text(), err)
				}
				c.Check(r.Success == !a.Failed && r.Error.Code == a.Code && r.Error.Description == a.Text, "answer %s is decoded to %+v", a.text(), r)
				c.Check(len(r.Response) == len(a.Moons), "answer %s is decoded to %d moons, not %d", a.text(), len(r.Response), len(a.Moons))
				for i, m := range a.Moons {
					g := r.Response[i]
					stamp := a.instant(m)
					if m.Bare {
						stamp = 0
					}
					c.Check(int64(g.Timestamp) == stamp && g.DateTimeISO.Unix() == a.instant(m) && g.DateTimeISO.Nanosecond() == m.Nano && g.Code == m.Code && g.Name == m.Name, "moon %d of %s is decoded to %+v", i, a.text(), g)
					c.Points(1)
				}
				c.Points(2)
			}
			some, nothing := false, len(v.Files) > 1 && v.Files[len(v.Files)-1].Year-v.Files[0].Year >= len(v.Files)
			wants := make([][]StoredMoon, len(v.Ranges))
			for i, r := range v.Ranges {
				for _, a := range v.Files {
					if a.Failed || a.Code != "" || len(a.Moons) == 0 {
						nothing = true
						continue
					}
					for _, m := range a.Moons {
						if n := a.instant(m)*1e9 + int64(m.Nano); n >= r.From && n <= r.To {
							wants[i] = append(wants[i], StoredMoon{Unix: a.instant(m), Nano: m.Nano, Phase: phaseName[m.Code]})
							some = true
						}
					}
				}
			}
			c.NonTrivial(some && nothing)
			c.Class(some, "moons in a range")
			c.Class(nothing, "answers that give nothing")
			// stored
			bin := os.Getenv("VERIF_ANSWERS")
			if bin == "" {
				return // no way to have the local files used any more
			}
			dir := scratch()
			defer os.RemoveAll(dir)
			to := filepath.Join(dir, "data/astro")
			if err := os.MkdirAll(to, 0o755); err != nil {
				h.Fatal("%v", err)
			}
			for _, a := range v.Files {
				if err := os.WriteFile(filepath.Join(to, fmt.Sprintf("astro-%d.json", a.Year)), []byte(a.text()), 0o644); err != nil {
					h.Fatal("%v", err)
				}
			}
			var args []string
			for _, r := range v.Ranges {
				args = append(args, fmt.Sprint(r.From), fmt.Sprint(r.To))
			}
			out, stderr, code := child(c, dir, "Asia/Bangkok", bin, args...)
			c.Check(code == 0, "exit status %d: %s", code, clipText(stderr, 1500))
			var got [][]StoredMoon
			if err := json.Unmarshal([]byte(out), &got); err != nil || len(got) != len(v.Ranges) {
				h.Fatal("answers: %q", out)
			}
			for i, r := range v.Ranges {
				want := wants[i]
				c.Check(fmt.Sprint(got[i]) == fmt.Sprint(want), "the moons %v to %v of the answers are %v, want %v", time.Unix(0, r.From).UTC(), time.Unix(0, r.To).UTC(), got[i], want)
				c.Points(1 + len(want))
			}
		},
	})
}
