package full

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// Around is what surrounds a query.
type Around struct {
	Dir   int // which working directory
	Zone  string
	Env   [][2]string
	Procs int
}

// Traces are what queries may leave in the process.
type traces struct {
	dir, env   string
	files      string
	zone       *time.Location
	procs      int
	logFlags   int
	logPrefix  string
	stdout     *os.File
	stderr     *os.File
	args       string
	settings   string // of the package
	process    string // limits, signals and what else the runtime and the system keep for it
	shared     string // of the standard library
	goroutines int
	open       int
}

// procLines gives the lines of a file of /proc/self that start with one of the words.
func procLines(file string, words ...string) string {
	b, _ := os.ReadFile("/proc/self/" + file)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		for _, w := range words {
			if strings.HasPrefix(l, w) {
				out = append(out, strings.Join(strings.Fields(l), " "))
			}
		}
	}
	return strings.Join(out, "; ")
}

func processText() string {
	gc, stack := debug.SetGCPercent(-1), debug.SetMaxStack(1<<29)
	debug.SetGCPercent(gc)
	debug.SetMaxStack(stack)
	return fmt.Sprint("gc ", gc, " stack ", stack, " memory ", debug.SetMemoryLimit(-1), "; ", procLines("status", "Umask", "SigIgn", "SigCgt", "Uid", "Gid", "NoNewPrivs"), "; ", procLines("limits", "Max"))
}

func sharedText() string {
	r, _ := http.NewRequest("GET", "http://localhost/data/astro/astro-2015.json", nil)
	_, pattern := http.DefaultServeMux.Handler(r)
	return fmt.Sprintf("%p %p %v %v %q %p", http.DefaultClient, http.DefaultTransport, http.DefaultClient.Timeout, http.DefaultClient.Transport, pattern, flag.CommandLine)
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}

func listFiles(dir string) string {
	var l []string
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil {
			if i, err := d.Info(); err == nil && !d.IsDir() {
				l = append(l, fmt.Sprint(p, i.Size(), i.ModTime().UnixNano()))
			} else {
				l = append(l, p)
			}
		}
		return nil
	})
	return strings.Join(l, "\n")
}

func takeTraces(dir string, repo bool) traces {
	t := traces{zone: time.Local, procs: runtime.GOMAXPROCS(0), logFlags: log.Flags(), logPrefix: log.Prefix(), stdout: os.Stdout, stderr: os.Stderr,
		args: fmt.Sprint(os.Args), settings: fmt.Sprint(su.UseExceptions, exceptionsText()), process: processText(), shared: sharedText(), goroutines: runtime.NumGoroutine(), open: openFiles()}
	t.dir, _ = os.Getwd()
	e := os.Environ()
	sort.Strings(e)
	t.env = strings.Join(e, "\n")
	if !repo {
		t.files = listFiles(dir)
	}
	return t
}

// another gives a query much like q; the years it is about are the same.
func another(q Query, n int) Query {
	switch q.Op {
	case "range", "json", "moons", "halfdays":
		q.From.Unix += int64(n%20000 + 1)
		q.From.Nano = int64(n % 1000000)
		q.To.Unix += int64(n % 20000)
	case "asset":
		if q.Name == "nothing" {
			q.Name = fmt.Sprint("nothing ", n)
		}
	case "names":
		q.Name = fmt.Sprint("name ", n)
	}
	return q
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// inNewProcess asks the queries in a process that starts in the surroundings.
func inNewProcess(c *h.Ctx, dir string, a Around, exc bool, qs []Query) {
	in, _ := json.Marshal(WordCase{exc, qs})
	self, err := os.Executable()
	if err != nil {
		h.Fatal("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	for _, e := range a.Env {
		cmd.Env = append(cmd.Env, e[0]+"="+e[1])
	}
	cmd.Env = append(cmd.Env, "TZ="+a.Zone, fmt.Sprint("GOMAXPROCS=", max(a.Procs, 1)), "VERIF_ANSWER=1", "VERIF_WORK="+os.Getenv("VERIF_WORK"), "VERIF_DIR="+os.Getenv("VERIF_DIR"))
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	files := ""
	if dir != h.RepoDir {
		files = listFiles(dir)
	}
	c.ChildRunning(true)
	err = cmd.Run()
	c.ChildRunning(false)
	if ctx.Err() != nil {
		hung(c, cmd.ProcessState, "the process")
	}
	what := fmt.Sprintf("a new process in %s with %v asked %+v (exceptions %v)", dir, cmd.Env[2:len(cmd.Env)-3], qs, exc)
	if err != nil {
		s := e.String()
		if strings.Contains(s, "HARNESS-ERROR") || strings.Contains(s, "out of memory") || cmd.ProcessState == nil {
			h.Fatal("%v %s", err, clipText(s, 2000))
		}
		c.Failf("%s: %v\n%s", what, err, clipText(s, 3500))
	}
	c.Check(e.Len() == 0, "%s prints %q", what, clipText(e.String(), 500))
	var got []string
	dec := json.NewDecoder(bytes.NewReader(o.Bytes()))
	if err := dec.Decode(&got); err != nil || len(got) != len(qs) || strings.TrimSpace(o.String()[dec.InputOffset():]) != "" {
		c.Failf("%s prints %q besides its answers", what, clipText(o.String(), 500))
	}
	su.UseExceptions = exc
	for i, q := range qs {
		a := Ask(q)
		if m := Judge(q, a, exc); m != "" {
			c.Failf("query %+v (exceptions %v): %s", q, exc, m)
		}
		c.Check(got[i] == strings.ToValidUTF8(a.Text, "\uFFFD"), "%s, answers to %+v\n%s\nand not\n%s", what, q, clipText(got[i], 1500), clipText(a.Text, 1500))
		c.Points(1)
	}
	if files != "" {
		c.Check(listFiles(dir) == files, "%s: files are made or changed", what)
	}
}

func init() {
	type AroundCase struct {
		A    Around
		Exc  bool
		Q    []Query
		Many bool `json:",omitempty"` // asked over and over, for what is left in memory
		New  bool `json:",omitempty"` // asked in a new process, which starts in these surroundings
	}
	zones := []string{"UTC", "Asia/Bangkok", "America/New_York", "Pacific/Apia", "Pacific/Kiritimati", "Asia/Kathmandu", "Europe/London", "America/St_Johns", "Australia/Lord_Howe"}
	envs := [][2]string{{"TZ", "Asia/Bangkok"}, {"TZ", "America/New_York"}, {"TZ", ""}, {"LANG", "th_TH.UTF-8"}, {"LC_ALL", "C"}, {"LC_TIME", "th_TH"}, {"VERBOSE", "1"}, {"verbose", "true"}, {"DEBUG", "1"}, {"SURIYA_VERBOSE", "1"}, {"USE_LOCAL", "1"}, {"SURIYA_LOCAL", "1"}, {"HOME", "/nonexistent"}, {"PATH", ""}, {"TMPDIR", "/nonexistent"}, {"PWD", "/"}}
	h.Register(h.Spec[AroundCase]{
		ID: "C38",
		Rule: "1..8 queries of every kind (those of local files, whole or by a handle, in the repository) in generated surroundings: an empty working directory, the repository or one with other data files in it, any local timezone, environment variables, 1..8 processors, set in this process or those a new process starts in; each answer against the reference, and what the process prints, its files, settings, open files and goroutines before and after; every kind also asked over and over, for what stays in memory. " +
			"Non-trivial: another working directory than the repository and a local timezone other than UTC.",
		Quick: 6000, Thorough: 120000,
		Gen: func(t *rapid.T) AroundCase {
			g := genQuery().Filter(func(q Query) bool { return q.Op != "local" })
			v := AroundCase{A: Around{rapid.IntRange(0, 2).Draw(t, "dir"), rapid.SampledFrom(zones).Draw(t, "zone"), rapid.SliceOfN(rapid.SampledFrom(envs), 0, 4).Draw(t, "env"), rapid.SampledFrom([]int{8, 1, 2}).Draw(t, "procs")},
				Exc: rapid.Bool().Draw(t, "exceptions"), Q: rapid.SliceOfN(g, 1, 8).Draw(t, "queries"), New: rapid.IntRange(0, 24).Draw(t, "process") == 0}
			if v.A.Dir == 2 { // the repository: local files, too
				for i := range v.Q {
					if v.Q[i].Op == "open" || v.Q[i].Op == "dir" || v.Q[i].Op == "asset" {
						v.Q[i].Op = rapid.SampledFrom([]string{v.Q[i].Op, "local", "localbytes"}).Draw(t, "from")
					}
				}
			}
			return v
		},
		Sweep: func(c *h.Ctx, yield func(AroundCase) bool) {
			from := Instant{Unix: ref.FromCivil(2015, 1, 1).Unix()}
			to := Instant{Unix: ref.FromCivil(2016, 2, 1).Unix()}
			kinds := []Query{{Op: "range", From: from, To: to}, {Op: "json", From: from, To: to}, {Op: "moons", From: from, To: to}, {Op: "halfdays", From: from, To: to}, {Op: "listing", Year: 1997}, {Op: "ical", Year: 1996}, {Op: "year", Year: 1994},
				{Op: "asalha", Year: 1950}, {Op: "kattika", Year: 2100}, {Op: "day", Year: 1963, N: 103}, {Op: "next", Year: 2015, N: 17}, {Op: "horakhun", N: 500000}, {Op: "asset", Name: "astro-1994.json"}, {Op: "asset", Name: "nothing"}, {Op: "open", Name: "astro-1995.json"},
				{Op: "dir", Name: "astro-1994.json"}, {Op: "names", Name: "kattika", N: 2}, {Op: "degree", N: -1234}}
			for _, op := range []string{"range", "json", "moons", "halfdays"} {
				// quick ones: a day without moons, an empty range
				d := ref.FromCivil(2045, 3, 1)
				kinds = append(kinds, Query{Op: op, From: Instant{Unix: d.Unix()}, To: Instant{Unix: (d + 1).Unix()}}, Query{Op: op, From: Instant{Unix: (d - 15000).Unix()}, To: Instant{Unix: (d - 6000).Unix()}}, Query{Op: op, From: Instant{Unix: (d + 900).Unix()}, To: Instant{Unix: d.Unix()}})
			}
			for _, op := range []string{"local", "localbytes"} {
				for _, name := range []string{"astro-1994.json", "astro-2033.json", "nothing", ""} {
					if name == "" && op == "local" {
						continue
					}
					q := Query{Op: op, Name: name}
					for _, v := range []AroundCase{{Q: []Query{q}}, {Q: []Query{q, q, q, q}}, {Q: []Query{q}, Many: true}, {Q: []Query{q}, New: true}} {
						v.A = Around{2, "Asia/Bangkok", nil, 8}
						if !yield(v) {
							return
						}
					}
				}
			}
			for _, k := range kinds {
				if !yield(AroundCase{A: Around{0, "Asia/Bangkok", nil, 8}, Q: []Query{k}, Many: true}) {
					return
				}
				for d := 0; d <= 2; d++ {
					if !yield(AroundCase{A: Around{d, zones[d+1], envs, 4}, Q: []Query{k}, New: true}) {
						return
					}
					for _, z := range zones {
						if !yield(AroundCase{A: Around{d, z, envs, 4}, Exc: d == 1, Q: []Query{k}}) {
							return
						}
					}
				}
			}
		},
		Check: func(c *h.Ctx, v AroundCase) {
			Prepare()
			dir := h.WorkDirs()[[]int{0, 1, 3}[v.A.Dir%3]]
			repo := dir == h.RepoDir
			if err := os.Chdir(dir); err != nil {
				h.Fatal("%v", err)
			}
			if v.New {
				inNewProcess(c, dir, v.A, v.Exc, v.Q)
				c.NonTrivial(!repo && v.A.Zone != "UTC")
				c.Class(true, "new process")
				return
			}
			loc, err := time.LoadLocation(v.A.Zone)
			if err != nil {
				h.Fatal("%v", err)
			}
			su.UseExceptions = v.Exc
			out, err := os.CreateTemp(os.Getenv("VERIF_WORK"), "out")
			if err != nil {
				h.Fatal("%v", err)
			}
			var logged bytes.Buffer
			so, se, lw, local, procs := os.Stdout, os.Stderr, log.Writer(), time.Local, runtime.GOMAXPROCS(0)
			old := map[string]*string{}
			for _, e := range v.A.Env {
				if _, ok := old[e[0]]; !ok {
					if s, ok := os.LookupEnv(e[0]); ok {
						old[e[0]] = &s
					} else {
						old[e[0]] = nil
					}
				}
				os.Setenv(e[0], e[1])
			}
			defer func() {
				os.Stdout, os.Stderr, time.Local = so, se, local
				log.SetOutput(lw)
				runtime.GOMAXPROCS(procs)
				for k, s := range old {
					if s == nil {
						os.Unsetenv(k)
					} else {
						os.Setenv(k, *s)
					}
				}
				out.Close()
				os.Remove(out.Name())
			}()
			os.Stdout, os.Stderr, time.Local = out, out, loc
			log.SetOutput(&logged)
			if v.A.Procs > 0 && v.A.Procs != procs {
				runtime.GOMAXPROCS(v.A.Procs)
			}
			gc := debug.SetGCPercent(-1) // which would close what is left open
			defer debug.SetGCPercent(gc)
			before := takeTraces(dir, repo)
			for i, q := range v.Q {
				a := Ask(q)
				if m := Judge(q, a, v.Exc); m != "" {
					c.Failf("query %d %+v (exceptions %v) in %s, %s, %v: %s", i, q, v.Exc, dir, v.A.Zone, v.A.Env, m)
				}
				c.Points(1)
			}
			what := fmt.Sprintf("after %+v", v.Q)
			after := takeTraces(dir, repo)
			for i := 0; i < 100 && after.goroutines > before.goroutines; i++ {
				time.Sleep(10 * time.Millisecond)
				after.goroutines = runtime.NumGoroutine()
			}
			c.Check(after.goroutines <= before.goroutines, "%s there are %d goroutines, %d before", what, after.goroutines, before.goroutines)
			c.Check(after.open <= before.open, "%s there are %d open files, %d before", what, after.open, before.open)
			debug.SetGCPercent(gc)
			after.goroutines, after.open = before.goroutines, before.open
			c.Check(after.process == before.process, "%s the process is changed: %s, before %s", what, after.process, before.process)
			c.Check(after.shared == before.shared, "%s what programs share is changed: %s, before %s", what, after.shared, before.shared)
			c.Check(after == before, "%s the process is changed: %+v, before %+v", what, after, before)
			if _, err := out.Seek(0, io.SeekStart); err != nil {
				h.Fatal("%v", err)
			}
			printed, _ := io.ReadAll(out)
			c.Check(len(printed) == 0 && logged.Len() == 0, "%s was printed %q, logged %q", what, printed, logged.String())
			c.Points(8)
			if v.Many {
				n := 0
				ask := func(min, max int, d time.Duration) (asked int) {
					for t := time.Now(); asked < min || asked < max && time.Since(t) < d; asked++ {
						Ask(another(v.Q[0], n))
						n++
					}
					return asked
				}
				ask(20, 500, 50*time.Millisecond)
				h0 := heap()
				k := ask(50, 20000, 400*time.Millisecond)
				grown := heap() - h0
				// what a cache or the runtime takes once it does not take again
				if grown > int64(8*k) && grown > 16000 {
					h1 := heap()
					m := ask(4*k, 4*k, 0)
					again := heap() - h1
					c.Check(again < int64(8*m), "%d times %+v left %d bytes in memory, %d more times %d bytes", k, v.Q[0], grown, m, again)
				}
				c.Class(true, "over and over")
			}
			c.NonTrivial(!repo && v.A.Zone != "UTC")
			c.Class(true, []string{"empty directory", "other data files", "repository"}[v.A.Dir%3])
			c.Class(v.A.Procs == 1, "one processor")
		},
	})
}
