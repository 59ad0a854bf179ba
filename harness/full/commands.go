package full

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/core"
	"verif/h"
	"verif/ref"
)

// child runs a program in a scratch directory.
func child(c *h.Ctx, dir, tz, bin string, args ...string) (stdout, stderr string, code int) {
	return childTo(c, nil, nil, dir, tz, bin, args...)
}

// childTo prints to a file instead, if there is one, and has more settings.
func childTo(c *h.Ctx, to *os.File, env []string, dir, tz, bin string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TZ=" + tz, "GOTRACEBACK=all"}
	cmd.Env = append(cmd.Env, env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if to != nil {
		cmd.Stdout = to
	}
	c.ChildRunning(true)
	err := cmd.Run()
	c.ChildRunning(false)
	if ctx.Err() != nil {
		hung(c, cmd.ProcessState, fmt.Sprint(args))
	}
	if err != nil && cmd.ProcessState == nil {
		h.Fatal("%s: %v", bin, err)
	}
	if code = cmd.ProcessState.ExitCode(); code < 0 {
		h.Fatal("%s: %v %s", bin, err, e.String())
	}
	return o.String(), e.String(), code
}

func scratch() string {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		h.Fatal("VERIF_WORK is not set")
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		h.Fatal("%v", err)
	}
	return d
}

var dateShape = regexp.MustCompile(`^([0-9]{4})-([0-9]{2})-([0-9]{2})$`)

// validDate is an own reading of YYYY-MM-DD.
func validDate(s string) (ref.Day, bool) {
	m := dateShape.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	y, _ := strconv.Atoi(m[1])
	mo, _ := strconv.Atoi(m[2])
	d, _ := strconv.Atoi(m[3])
	if mo < 1 || mo > 12 || d < 1 || d > 31 {
		return 0, false
	}
	r := ref.FromCivil(y, mo, d)
	a, b, e := r.Civil()
	return r, a == y && b == mo && e == d
}

// exactDays is whether two lists of days hold the same, entry by entry.
func exactDays(a, b []su.CalDay) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Date.Equal(b[i].Date) || fmt.Sprint(sorted(flattenDay(a[i]))) != fmt.Sprint(sorted(flattenDay(b[i]))) {
			return false
		}
	}
	return true
}

// outNames are names an output file can have.
var outNames = []string{"out", "out.json", "out.ical", "OUT.TXT", "a b.json", " out", "out ", "ปฏิทิน.ical", ".out", "out.", "a%20b", "a'b\"c", "$HOME", "~", "*.json", "out.json.gz", "./out", "caldays", "data", strings.Repeat("n", 200), "a=b", "a,b", "-", "-out", "--output"}

// CLICase is one run of the command.
type CLICase struct {
	Cmd      string // caldays, ical
	From, To string // "-" when left out
	Style    int    // how the flags are written
	Output   string // "", new, longer, shorter, link, hardlink, and where none can be written: nodir, isdir, full, nowhere (printed to a full device)
	TZ       string
	Odd      string // an argument the command does not know, or an option without its value, at the end
	Now      int64  // the time it runs at, if not 0
	Name     string `json:",omitempty"` // of the output file in the directory of the run, "" for its path in full
	Turn     int    `json:",omitempty"` // the order of the options
}

// localYear is the year of a time in a timezone, 0 when the timezone is not known.
func localYear(at int64, tz string) int {
	l, err := time.LoadLocation(tz)
	if err != nil {
		return 0
	}
	_, off := time.Unix(at, 0).In(l).Zone()
	s := at + int64(off)
	d := s / 86400
	if s%86400 < 0 {
		d--
	}
	return (ref.FromCivil(1970, 1, 1) + ref.Day(d)).Year()
}

func init() {
	head, _, _, err := icalEvents(publishedIcal)
	if err != nil {
		panic(err)
	}
	date := func(d ref.Day) string { y, m, dd := d.Civil(); return fmt.Sprintf("%04d-%02d-%02d", y, m, dd) }
	bad := []string{"2015-13-01", "2015-02-30", "2015-00-10", "2015-01-00", "15-01-01", "2015-1-1", "2015/01/01", "2015-01-01T00:00:00Z", "2015-01-01 ", " 2015-01-01", "2015-01", "20150101", "yesterday", "2015-01-01x", "1900-02-29", "01-01-2015", "--", "２０１５-01-01"}
	h.Register(h.Spec[CLICase]{
		ID: "C29",
		Rule: "runs of the command: both subcommands, ranges of 0 days to 5 years (some: to 220 years) of 645..3990 (mostly with recorded moons), also reversed, either end left out, in runs at any time of 1971..2600, often around the change of a year, one in eight with a malformed date, one in ten with an unknown option or one without its value, printed or written to a new file, over a longer or shorter file or one that has two names, by names of many kinds, in full or not, with the options in any order, or where nothing can be written (no directory, a directory, a full device, also when printing), in several timezones. " +
			"The output parsed and held against the reference calendar, the data files and the range query. Non-trivial: a valid range with events in two years, or a malformed date or option or an unwritable output.",
		Quick: 4000, Thorough: 40000,
		Assumptions: []string{"github.com/codegangsta/cli, github.com/soh335/ical, github.com/davecgh/go-spew and github.com/satori/go.uuid are replaced by stand-ins, so the command-line syntax and the iCalendar text are theirs"},
		Gen: func(t *rapid.T) CLICase {
			v := CLICase{Cmd: rapid.SampledFrom([]string{"caldays", "ical"}).Draw(t, "command"), Style: rapid.IntRange(0, 2).Draw(t, "style"),
				Output: rapid.SampledFrom([]string{"", "", "", "new", "longer", "shorter", "link", "hardlink", "nodir", "isdir", "full", "nowhere"}).Draw(t, "output"), TZ: rapid.SampledFrom([]string{"UTC", "Asia/Bangkok", "America/Los_Angeles", "Pacific/Kiritimati"}).Draw(t, "tz")}
			y := rapid.OneOf(rapid.IntRange(1900, 2041), rapid.IntRange(2010, 2020), years(645, 3990)).Draw(t, "year")
			a := ref.FromCivil(y, 1, 1) + ref.Day(rapid.OneOf(rapid.IntRange(-10, 10), rapid.IntRange(0, 365)).Draw(t, "day"))
			b := a + ref.Day(rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(300, 800), rapid.IntRange(-10, 1900)).Draw(t, "length"))
			if rapid.IntRange(0, 39).Draw(t, "long") == 23 {
				a = ref.FromCivil(rapid.IntRange(1500, 2300).Draw(t, "long from"), 1, 1) + ref.Day(rapid.IntRange(0, 365).Draw(t, "day"))
				b = a + ref.Day(rapid.IntRange(7000, 80000).Draw(t, "long for"))
			}
			v.From, v.To = date(a), date(b)
			now := ref.FromCivil(time.Now().Year(), 1, 1)
			if rapid.IntRange(0, 9).Draw(t, "today") > 0 {
				// around a change of the year, or any time
				y := rapid.OneOf(rapid.IntRange(1971, 2041), rapid.IntRange(1971, 2600)).Draw(t, "now year")
				now = ref.FromCivil(y, 1, 1)
				v.Now = int64(now-ref.FromCivil(1970, 1, 1))*86400 + int64(rapid.OneOf(rapid.IntRange(-86400, 86400), rapid.IntRange(0, 365*86400)).Draw(t, "now"))
			}
			switch rapid.IntRange(0, 7).Draw(t, "left out") {
			case 0:
				v.From, v.To = "-", "-"
			case 1:
				v.From, v.To = "-", date(now+ref.Day(rapid.IntRange(-30, 900).Draw(t, "to")))
			case 2:
				v.From, v.To = date(now+ref.Day(rapid.IntRange(-900, 400).Draw(t, "from"))), "-"
			}
			if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
				v.Odd = rapid.OneOf(rapid.SampledFrom([]string{"--from", "--to", "--output", "-to", "--frm=2015-01-01", "--form", "-x", "--out=x", "--year=2015", "--From=2015-01-01", "---from"}), rapid.StringMatching(`--?[a-eg-np-su-z][a-z]{0,6}`)).Draw(t, "odd argument")
				if v.Odd == "--help" || v.Odd == "-help" || v.Odd == "-h" || v.Odd == "--h" {
					v.Odd = "--hlp"
				}
			}
			if rapid.IntRange(0, 7).Draw(t, "malformed") == 0 {
				b := rapid.OneOf(rapid.SampledFrom(bad), rapid.StringMatching(`[0-9]{4}-[0-9]{1,2}-[0-9]{1,3}`)).Draw(t, "bad")
				if _, ok := validDate(b); ok {
					b += "x"
				}
				if rapid.Bool().Draw(t, "from or to") {
					v.From = b
				} else {
					v.To = b
				}
			}
			if rapid.Bool().Draw(t, "named") {
				v.Name = rapid.OneOf(rapid.SampledFrom(outNames), rapid.StringMatching(`[A-Za-z0-9_]{1,12}(\.[A-Za-z]{1,5})?`)).Draw(t, "name")
			}
			v.Turn = rapid.IntRange(0, 5).Draw(t, "order")
			return v
		},
		Sweep: func(c *h.Ctx, yield func(CLICase) bool) {
			for _, cmd := range []string{"caldays", "ical"} {
				for i, n := range outNames {
					for _, out := range []string{"new", "longer", "link", "hardlink"} {
						if !yield(CLICase{cmd, "2014-01-01", "2015-06-30", i % 3, out, "UTC", "", 0, n, i % 6}) {
							return
						}
					}
				}
				for _, out := range []string{"", "shorter"} {
					if !yield(CLICase{cmd, "1899-06-15", "2044-06-15", 0, out, "UTC", "", 0, "", 0}) {
						return
					}
				}
				for _, out := range []string{"", "new", "longer", "shorter", "nodir", "isdir", "full", "nowhere"} {
					for _, r := range [][2]string{{"2014-01-01", "2017-12-31"}, {"2015-06-01", "2015-06-03"}, {"-", "-"}, {"2016-01-01", "2015-01-01"}, {"2015-02-30", "2016-01-01"}, {"2015-01-01", "2016-1-1"}} {
						if !yield(CLICase{cmd, r[0], r[1], 0, out, "UTC", "", 0, "", 0}) {
							return
						}
					}
					for _, o := range []string{"--frm=2015-01-01", "--output", "-x"} {
						if !yield(CLICase{cmd, "2015-01-01", "2015-02-01", 0, out, "UTC", o, 0, "", 0}) {
							return
						}
					}
				}
			}
		},
		Check: func(c *h.Ctx, v CLICase) {
			bin := os.Getenv("VERIF_CLI")
			if bin == "" {
				h.Fatal("VERIF_CLI is not set")
			}
			dir := scratch()
			defer os.RemoveAll(dir)
			out := ""
			old := ""
			name, other := "out", ""
			if v.Name != "" {
				name = v.Name
			}
			switch v.Output {
			case "new":
				out = filepath.Join(dir, name)
			case "link", "hardlink":
				// another name of a file
				old = "old content\n"
				out, other = filepath.Join(dir, name), filepath.Join(dir, "real file")
				if err := os.WriteFile(other, []byte(old), 0644); err != nil {
					h.Fatal("%v", err)
				}
				link := os.Symlink
				if v.Output == "hardlink" {
					link = os.Link
				}
				if err := link(other, out); err != nil {
					h.Fatal("%v", err)
				}
			case "longer", "shorter":
				out, old = filepath.Join(dir, name), "old content\n"
				if v.Output == "longer" {
					old = strings.Repeat("old content }]\r\nEND:VCALENDAR\r\n", 40000)
				}
				if err := os.WriteFile(out, []byte(old), 0644); err != nil {
					h.Fatal("%v", err)
				}
			case "nodir":
				out = filepath.Join(dir, "no", "such", "out")
			case "isdir":
				out = filepath.Join(dir, "d")
				os.Mkdir(out, 0755)
			case "full":
				out = "/dev/full"
			}
			var opts [][]string
			flag := func(k, x string) {
				switch v.Style {
				case 0:
					opts = append(opts, []string{"--" + k, x})
				case 1:
					opts = append(opts, []string{"--" + k + "=" + x})
				case 2:
					opts = append(opts, []string{"-" + k, x})
				}
			}
			valid := true
			var from, to ref.Day
			if v.From != "-" {
				flag("from", v.From)
				d, ok := validDate(v.From)
				from, valid = d, ok
			}
			if v.To != "-" {
				flag("to", v.To)
				d, ok := validDate(v.To)
				to, valid = d, valid && ok
			}
			if out != "" {
				if v.Name != "" && (v.Output == "new" || old != "") {
					flag("output", v.Name)
				} else {
					flag("output", out)
				}
			}
			args := []string{v.Cmd}
			if n := len(opts); n > 0 {
				// in any order
				for i := range opts {
					at := (i + v.Turn) % n
					if v.Turn >= 3 {
						at = n - 1 - at
					}
					args = append(args, opts[at]...)
				}
			}
			if v.Odd != "" {
				args = append(args, v.Odd)
			}
			var full *os.File
			if v.Output == "nowhere" {
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				if err != nil {
					h.Fatal("%v", err)
				}
				defer f.Close()
				full = f
			}
			var env []string
			if clock := os.Getenv("VERIF_CLI_CLOCK"); clock == "" {
				v.Now = 0
			} else if v.Now != 0 {
				bin, env = clock, []string{fmt.Sprintf("VERIF_NOW=%d", v.Now)}
			}
			stdout, stderr, code := childTo(c, full, env, dir, v.TZ, bin, args...)
			run := fmt.Sprintf("suriya %s", strings.Join(args, " "))
			c.Class(v.Output != "", "output "+v.Output)
			c.Class(true, v.Cmd)
			c.Class(!valid, "malformed date")
			c.Class(v.Odd != "", "malformed arguments")
			if !valid || v.Odd != "" || v.Output == "nodir" || v.Output == "isdir" || v.Output == "full" || v.Output == "nowhere" {
				c.NonTrivial(true)
				c.Check(code == 1 || v.Odd != "" && code > 0, "%s: exit status %d, want 1\n%s%s", run, code, clipText(stdout, 300), clipText(stderr, 300))
				c.Check(!strings.Contains(stdout, `"Date"`) && !strings.Contains(stdout, "BEGIN:VCALENDAR"), "%s: prints days: %s", run, clipText(stdout, 300))
				if v.Output == "new" || old != "" {
					b, err := os.ReadFile(out)
					if v.Output == "new" {
						c.Check(os.IsNotExist(err), "%s: the output file was made all the same", run)
					} else {
						c.Check(string(b) == old, "%s: the output file changed all the same", run)
					}
				}
				return
			}
			c.Check(code == 0, "%s: exit status %d\n%s%s", run, code, clipText(stdout, 300), clipText(stderr, 300))
			text := stdout
			if out != "" {
				b, err := os.ReadFile(out)
				c.Check(err == nil, "%s: %v", run, err)
				text = string(b)
				c.Check(stdout == "", "%s: prints %q besides", run, clipText(stdout, 200))
				es, _ := os.ReadDir(dir)
				if other != "" {
					b, err := os.ReadFile(other)
					c.Check(err == nil && string(b) == text, "%s: the file has another content by its other name (a %s)", run, v.Output)
					c.Check(len(es) == 2, "%s: leaves other files behind: %v", run, es)
				} else {
					c.Check(len(es) == 1, "%s: leaves other files behind: %v", run, es)
				}
			}
			// the year of a range left out is the one the command ran in
			froms, tos := []ref.Day{from}, []ref.Day{to}
			ys := map[int]bool{}
			for _, s := range []time.Duration{-13 * time.Hour, 0, 15 * time.Hour} {
				ys[time.Now().UTC().Add(s).Year()] = true
			}
			if y := localYear(v.Now, v.TZ); v.Now != 0 && y != 0 {
				ys = map[int]bool{y: true}
				run = fmt.Sprintf("in %d (%s), %s", y, v.TZ, run)
			} else if v.Now != 0 {
				ys = map[int]bool{}
				for _, s := range []int64{-13, 0, 15} {
					ys[localYear(v.Now+s*3600, "UTC")] = true
				}
			}
			if v.From == "-" {
				froms = nil
				for y := range ys {
					froms = append(froms, ref.FromCivil(y, 1, 1))
				}
			}
			if v.To == "-" {
				tos = nil
				for y := range ys {
					tos = append(tos, ref.FromCivil(y, 12, 31))
				}
			}
			msg := ""
			for _, a := range froms {
				for _, b := range tos {
					fr, tt := dayTime(a), dayTime(b)
					var m string
					if v.Cmd == "caldays" {
						m = judgeCaldays(text, fr, tt)
					} else {
						m = judgeIcal(text, head, fr, tt)
					}
					if m == "" {
						n := len(refRange(fr, tt, false))
						c.Points(n)
						c.NonTrivial(n > 0 && fr.Year() != tt.Year())
						c.Class(fr.Year() != tt.Year(), "over a year end")
						c.Class(v.From == "-" || v.To == "-", "an end left out")
						c.Class((v.From == "-" || v.To == "-") && v.Now != 0, "an end left out, another time")
						c.Class(n == 0, "no events")
						return
					}
					msg = m
				}
			}
			c.Failf("%s: %s", run, msg)
		},
	})
}

func judgeCaldays(text string, from, to time.Time) string {
	var got map[string][]su.CalDay
	dec := json.NewDecoder(strings.NewReader(text))
	if err := dec.Decode(&got); err != nil || got == nil {
		return fmt.Sprintf("the output is not a JSON object of days: %v\n%s", err, clipText(text, 300))
	}
	if rest := strings.TrimSpace(text[dec.InputOffset():]); rest != "" {
		return fmt.Sprintf("after the JSON comes %q", clipText(rest, 200))
	}
	var ys []string
	for y := range got {
		ys = append(ys, y)
	}
	sort.Slice(ys, func(i, j int) bool {
		a, _ := strconv.Atoi(ys[i])
		b, _ := strconv.Atoi(ys[j])
		return a < b
	})
	var days []su.CalDay
	for _, y := range ys {
		if len(got[y]) == 0 {
			return "year " + y + " is empty"
		}
		for _, d := range got[y] {
			if fmt.Sprint(d.Date.UTC().Year()) != y {
				return fmt.Sprintf("year %s holds the day %v", y, d.Date)
			}
		}
		days = append(days, got[y]...)
	}
	want := su.GetCalDays(from, to)
	if d := diff(flatten(days), append(astroRange(from, to), refRange(from, to, false)...)); d != "" {
		return d
	}
	if !exactDays(days, want) {
		return "the days are not those of the range query, in its order"
	}
	return ""
}

// refSummary is how an event of the reference calendar reads.
func refSummary(e ref.Event) string {
	switch e.Kind {
	case "uposatha":
		return fmt.Sprintf("%s Moon - %d day %s %d/%d", phaseTitle[ref.Phase(e.U.Full)], e.U.UDays, []string{"Hemanta", "Gimha", "Vassāna"}[e.U.Season-1], e.U.SNumber, e.U.STotal)
	case "half":
		return phaseTitle[e.Phase] + " Moon"
	}
	return e.Summary
}

func judgeIcal(text string, head []string, from, to time.Time) string {
	gh, es, uids, err := icalEvents(text)
	if err != nil {
		return fmt.Sprintf("not an iCalendar text: %v\n%s", err, clipText(text, 300))
	}
	if strings.Count(text, "BEGIN:VCALENDAR") != 1 || strings.Count(text, "END:VCALENDAR") != 1 {
		return "not one iCalendar text"
	}
	if fmt.Sprint(sorted(gh)) != fmt.Sprint(sorted(head)) {
		return fmt.Sprintf("the calendar's header is\n%s\npublished is\n%s", strings.Join(gh, "\n"), strings.Join(head, "\n"))
	}
	seen := map[string]bool{}
	for _, u := range uids {
		if seen[u] {
			return "two events have the identifier " + u
		}
		seen[u] = true
	}
	var want []string
	for y := from.Year(); y <= to.Year() && !to.Before(from); y++ {
		for _, e := range ref.SolarYear(y, false) {
			t := dayTime(e.Day)
			if t.Before(from) || t.After(to) {
				continue
			}
			s := refSummary(e)
			want = append(want, t.Format("2006-01-02 15:04:05 ")+s)
		}
	}
	var got []string
	for i, e := range es {
		if i > 0 && e.at.Before(es[i-1].at) {
			return fmt.Sprintf("%v %s comes after %v %s", e.at, e.text, es[i-1].at, es[i-1].text)
		}
		got = append(got, e.at.Format("2006-01-02 15:04:05 ")+e.text)
	}
	return diff(got, want)
}

func init() {
	// ToolCase is one run of the years-table tool.
	type ToolCase struct {
		Old  string // content of years.csv before: "" none, otherwise repeated
		N    int
		TZ   string
		Args []string

		Table    string // full or simple: that table for a range of years, instead of a run of the tool
		From, To int
	}
	committed := map[int][]string{}
	lines := strings.Split(strings.TrimRight(core.PublishedTable, "\n"), "\n")
	for _, l := range lines[1:] {
		f := strings.Split(l, ";")
		y, err := strconv.Atoi(f[0])
		if err != nil {
			panic(err)
		}
		committed[y] = f
	}
	h.Register(h.Spec[ToolCase]{
		ID: "C35",
		Rule: "runs of the tool with no file, an empty, a shorter or a longer one there before, in several timezones and with arguments; every line and column of what it writes against the library, the reference and the committed table; and its full and simple tables of generated ranges of years 660..20000. " +
			"Non-trivial: every run of the tool, which compares 72 lines of 14 columns, and every table with an adhikamasa and an adhikavara year.",
		Quick: 900, Thorough: 20000,
		Gen: func(t *rapid.T) ToolCase {
			if rapid.IntRange(0, 2).Draw(t, "table") > 0 {
				v := ToolCase{Table: rapid.SampledFrom([]string{"full", "simple"}).Draw(t, "which"), TZ: rapid.SampledFrom([]string{"UTC", "Asia/Bangkok", "America/Los_Angeles"}).Draw(t, "tz")}
				v.From = rapid.OneOf(rapid.IntRange(1900, 2100), rapid.IntRange(1960, 2050), rapid.IntRange(660, 4000), rapid.IntRange(660, 20000)).Draw(t, "from")
				v.To = v.From + rapid.OneOf(rapid.IntRange(-2, 3), rapid.IntRange(0, 60), rapid.IntRange(0, 300)).Draw(t, "years")
				return v
			}
			return ToolCase{Old: genText().Draw(t, "old"), N: rapid.SampledFrom([]int{0, 1, 100, 5000}).Draw(t, "times"), TZ: rapid.SampledFrom([]string{"UTC", "Asia/Bangkok", "America/Los_Angeles"}).Draw(t, "tz"),
				Args: rapid.SliceOfN(rapid.SampledFrom([]string{"1", "x", "--help", "1990"}), 0, 2).Draw(t, "args")}
		},
		Sweep: func(c *h.Ctx, yield func(ToolCase) bool) {
			for _, v := range []ToolCase{{}, {Old: "x", N: 20000}, {Old: "2041;old\n", N: 4000, TZ: "UTC"}, {Table: "full", From: 1900, To: 2100}, {Table: "simple", From: 1900, To: 2100}} {
				if !yield(v) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v ToolCase) {
			if v.Table != "" {
				bin := os.Getenv("VERIF_TABLE_" + v.Table)
				c.Class(true, v.Table+" table")
				if bin == "" {
					return // there is no such function any more
				}
				dir := scratch()
				defer os.RemoveAll(dir)
				out, stderr, code := child(c, dir, v.TZ, bin, "verif-"+v.Table, strconv.Itoa(v.From), strconv.Itoa(v.To))
				c.Check(code == 0, "exit status %d %s", code, stderr)
				ls := strings.Split(strings.TrimRight(out, "\n"), "\n")
				head, sep := lines[0], ";"
				if v.Table == "simple" {
					head, sep = "CE year,BE year,nM,dM,nV,dV,K,A,T", ","
				}
				c.Check(ls[0] == head, "the header is %q, want %q", ls[0], head)
				c.Check(len(ls) == 1+max(0, v.To-v.From+1), "%d lines for %d to %d", len(ls), v.From, v.To)
				hasM, hasV := false, false
				for i, l := range ls[1:] {
					y := v.From + i
					f := strings.Split(l, sep)
					r := ref.NewYear(y)
					dM, dV := "", ""
					if ref.Adhikamasa(y) {
						n := 1
						for !ref.Adhikamasa(y - n) {
							n++
						}
						dM, hasM = fmt.Sprint(n), true
					}
					if ref.Adhikavara(y, false) {
						n := 1
						for !ref.Adhikavara(y-n, false) {
							n++
						}
						dV, hasV = fmt.Sprint(n), true
					} else if ref.QualifiesV(y) && v.Table == "full" {
						dV = "x"
					}
					nM, nV := fmt.Sprint(ref.FloorMod(int64(y-1984), 19)+1), fmt.Sprint(ref.FloorMod(int64(y-1984), 57)+1)
					want := []string{fmt.Sprint(y), fmt.Sprint(y + 543), nM, dM, nV, dV, fmt.Sprint(r.Kammacubala), fmt.Sprint(r.Avoman), fmt.Sprint(r.Tithi)}
					if v.Table == "full" {
						as := dayTime(ref.Asalha(y, false)).Format("2006-01-02")
						want = []string{fmt.Sprint(y), fmt.Sprint(y + 543), fmt.Sprint(r.Kammacubala), fmt.Sprint(r.Avoman), fmt.Sprint(r.Tithi), nM, dM, nV, dV, as, "", "", "", ""}
						if y >= 1970 && y <= 2041 {
							// the published date, the comparison, source and comments
							copy(want[10:], committed[y][10:])
						} else if len(f) == 14 && f[10] != "" {
							// a date that has become known for another year
							want[10], want[11], want[12], want[13] = f[10], "FAIL", f[12], f[13]
							if f[10] == as {
								want[11] = "OK"
							}
						}
					}
					c.Check(len(f) == len(want), "line of %d has %d columns: %s", y, len(f), l)
					for k := range want {
						c.Check(f[k] == want[k], "%s table, %d: column %d is %q, want %q", v.Table, y, k+1, f[k], want[k])
					}
					c.Points(len(want))
				}
				es, _ := os.ReadDir(dir)
				c.Check(len(es) == 0, "leaves files behind: %v", es)
				c.NonTrivial(hasM && hasV)
				return
			}
			bin := os.Getenv("VERIF_YEARS")
			if bin == "" {
				h.Fatal("VERIF_YEARS is not set")
			}
			dir := scratch()
			defer os.RemoveAll(dir)
			file := filepath.Join(dir, "years.csv")
			if v.N > 0 {
				if err := os.WriteFile(file, []byte(strings.Repeat(v.Old, v.N)), 0644); err != nil {
					h.Fatal("%v", err)
				}
			}
			_, stderr, code := child(c, dir, v.TZ, bin, v.Args...)
			c.Check(code == 0, "exit status %d %s", code, stderr)
			b, err := os.ReadFile(file)
			c.Check(err == nil, "%v", err)
			ls := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
			c.Check(ls[0] == lines[0], "the header is %q, want %q", ls[0], lines[0])
			c.Check(len(ls) == 73, "%d lines, want 73", len(ls))
			su.UseExceptions = false
			for i, l := range ls[1:] {
				y := 1970 + i
				f := strings.Split(l, ";")
				c.Check(len(f) == 14, "line of %d has %d columns: %s", y, len(f), l)
				s, r := yr(y), ref.NewYear(y)
				dM, dV := "", ""
				if ref.Adhikamasa(y) {
					n := 1
					for !ref.Adhikamasa(y - n) {
						n++
					}
					dM = fmt.Sprint(n)
					c.Check(s.DeltaAdhikamasa() == n, "the library has %d years since the adhikamasa before %d, want %d", s.DeltaAdhikamasa(), y, n)
				}
				if ref.Adhikavara(y, false) {
					n := 1
					for !ref.Adhikavara(y-n, false) {
						n++
					}
					dV = fmt.Sprint(n)
				} else if ref.QualifiesV(y) {
					dV = "x"
				}
				as := dayTime(ref.Asalha(y, false)).Format("2006-01-02")
				c.Check(s.AsalhaPuja().Format("2006-01-02") == as, "Asalha Puja of %d in the library is %v, want %s", y, s.AsalhaPuja(), as)
				test := ""
				if f[10] != "" {
					test = "FAIL"
					if f[10] == as {
						test = "OK"
					}
				}
				want := []string{fmt.Sprint(y), fmt.Sprint(y + 543), fmt.Sprint(r.Kammacubala), fmt.Sprint(r.Avoman), fmt.Sprint(r.Tithi), fmt.Sprint(ref.FloorMod(int64(y-1984), 19) + 1), dM,
					fmt.Sprint(ref.FloorMod(int64(y-1984), 57) + 1), dV, as, committed[y][10], test, committed[y][12], committed[y][13]}
				for k := range want {
					c.Check(f[k] == want[k], "%d: column %d is %q, want %q", y, k+1, f[k], want[k])
					c.Check(f[k] == committed[y][k], "%d: column %d is %q, in the committed table %q", y, k+1, f[k], committed[y][k])
				}
				c.Points(14)
			}
			es, _ := os.ReadDir(dir)
			c.Check(len(es) == 1, "leaves other files behind: %v", es)
			c.NonTrivial(true)
			c.Class(v.N == 0, "no file before")
			c.Class(v.N*len(v.Old) > 6000, "longer file before")
			c.Class(len(v.Args) > 0, "arguments")
		},
	})
}
