// Package h runs property checks: cases drawn by rapid (with shrinking) and
// enumerated sweeps, judged by an explicit oracle, with counts of what was
// generated, replay files and a known-findings list.
package h

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	_ "time/tzdata"

	"pgregory.net/rapid"
)

// localZones are the local zones cases run in, by their hash: none is UTC, so
// that use of the local zone shows, and some have summer time.
var localZones = func() []*time.Location {
	ls := []*time.Location{time.FixedZone("harness", 20700)}
	for _, n := range []string{"America/St_Johns", "Australia/Lord_Howe", "Europe/Dublin"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			Fatal("%v", err)
		}
		ls = append(ls, l)
	}
	return ls
}()

// workDirs are the working directories cases run in, by their hash: an empty
// one, one with other data files, and the repository.
var workDirs []string

func makeWorkDirs() {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		Fatal("VERIF_WORK is not set")
	}
	empty, other := filepath.Join(base, "empty"), filepath.Join(base, "other")
	astro := filepath.Join(other, "data", "astro")
	for _, d := range []string{empty, astro} {
		if err := os.MkdirAll(d, 0755); err != nil {
			Fatal("%v", err)
		}
	}
	for y := 1890; y <= 2050; y++ {
		body := fmt.Sprintf(`{"success":true,"error":null,"response":[{"timestamp":0,"dateTimeISO":"%d-02-03T04:05:06+00:00","code":2,"name":"full moon"}]}`, y)
		if err := os.WriteFile(filepath.Join(astro, fmt.Sprintf("astro-%d.json", y)), []byte(body), 0644); err != nil {
			Fatal("%v", err)
		}
	}
	workDirs = []string{empty, other, empty, RepoDir}
}

// RepoDir is the tree under test.
const RepoDir = "/repo"

// InRepo makes the repository the working directory of the current case.
func (c *Ctx) InRepo() {
	if err := os.Chdir(RepoDir); err != nil {
		Fatal("%v", err)
	}
}

// WorkDirs are the working directories cases run in.
func WorkDirs() []string { return workDirs }

// Spec is one property: a generator of cases, an oracle, optional sweeps.
type Spec[T any] struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Gen         func(t *rapid.T) T
	Check       func(c *Ctx, v T)
	Sweep       func(c *Ctx, yield func(T) bool) // deterministic enumeration
	Quick       int                              // rapid cases
	Thorough    int
	Exhaustive  bool // the sweep enumerates the stated space completely
	Assumptions []string
	CPULimit    float64 // CPU seconds one case may take, default 60
	AnySwitch   bool    // nothing in it depends on the exceptions: they are on in every other case
}

type prop interface {
	run(r *runner)
	replay(r *runner, raw json.RawMessage)
	id() string
}

var props = map[string]prop{}

// Switch sets the exceptions of the code under test on or off.
var Switch func(on bool)

func Register[T any](s Spec[T]) {
	if s.CPULimit == 0 {
		s.CPULimit = 60
	}
	props[s.ID] = &s
}

func (s *Spec[T]) id() string { return s.ID }

type failure struct{ msg string }

// Ctx is given to checks.
type Ctx struct {
	Tier    string
	Seed    int64
	r       *runner
	nontriv bool
	tags    []string
	Reset   func()
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Failf reports a violation and ends the case.
func (c *Ctx) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

func (c *Ctx) Check(ok bool, format string, a ...any) {
	if !ok {
		panic(failure{fmt.Sprintf(format, a...)})
	}
}

// NonTrivial marks the current case.
func (c *Ctx) NonTrivial(b bool) { c.nontriv = c.nontriv || b }

// Class counts a feature of the current case.
func (c *Ctx) Class(b bool, name string) {
	if b {
		c.tags = append(c.tags, name)
	}
}

// Points counts elementary comparisons made inside a case.
func (c *Ctx) Points(n int) { c.r.points += int64(n) }

// KnownOrFail accepts a listed finding (and notes it), anything else fails.
func (c *Ctx) KnownOrFail(key, format string, a ...any) {
	if c.r.knownHit(key) {
		return
	}
	c.Failf("[key %s] "+format, append([]any{key}, a...)...)
}

type runner struct {
	p         prop
	spec      string
	tier      string
	seed      int64
	dir       string // /verif
	start     time.Time
	mu        sync.Mutex
	evals     int64
	sweeps    int64
	generated int64
	points    int64
	distinct  map[uint64]struct{}
	classes   map[string]int64
	samples   []any
	sampTags  map[string]bool
	known     map[string]string
	hit       map[string]bool
	inCase    atomic.Bool
	caseCPU   atomic.Uint64 // CPU ms at the start of the case
	caseSeq   atomic.Int64
	caseVal   atomic.Value // json of current case
	children  atomic.Int64
	rule      string
	assume    []string
	exh       bool
	first     *failRec
	best      *failRec
	shrinking bool
	cpuLimit  float64
	reset     func()
}

type failRec struct {
	raw json.RawMessage
	msg string
	src string
}

func cpuSeconds() float64 {
	var ru, rc syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &rc)
	f := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return f(ru.Utime) + f(ru.Stime) + f(rc.Utime) + f(rc.Stime)
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// ChildRunning tells the watchdog that the case waits for a child process.
func (c *Ctx) ChildRunning(on bool) {
	if on {
		c.r.children.Add(1)
	} else {
		c.r.children.Add(-1)
	}
}

func (r *runner) watchdog() {
	var seq int64 = -1
	var since time.Time
	var cpu0 float64
	for {
		time.Sleep(500 * time.Millisecond)
		if !r.inCase.Load() {
			seq = -1
			continue
		}
		s := r.caseSeq.Load()
		cpu := cpuSeconds()
		if s != seq {
			seq, since, cpu0 = s, time.Now(), cpu
			continue
		}
		raw, _ := r.caseVal.Load().(json.RawMessage)
		over := ""
		if cpu-cpu0 > r.cpuLimit {
			over = fmt.Sprintf("the case does not end: more than %.0f s of CPU time", r.cpuLimit)
		} else if m := rssBytes(); m > 8<<30 {
			over = fmt.Sprintf("memory runs away: %d MB", m>>20)
		} else if time.Since(since) > 150*time.Second && cpu-cpu0 < 3 && r.children.Load() == 0 {
			over = "the case is blocked: no progress and no CPU time used for 150 s (deadlock)"
		}
		if over != "" {
			if seq != r.caseSeq.Load() || !r.inCase.Load() {
				continue
			}
			r.finishViolation(&failRec{raw, over, "watchdog"})
		}
	}
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// one runs one case; it returns a message when the oracle rejects it.
func one[T any](r *runner, s *Spec[T], v T, src string, count bool) (rec *failRec) {
	raw, err := json.Marshal(v)
	if err != nil {
		Fatal("case of %s is not JSON: %v", s.ID, err)
	}
	c := &Ctx{Tier: r.tier, Seed: r.seed, r: r}
	r.caseVal.Store(json.RawMessage(raw))
	r.caseSeq.Add(1)
	r.inCase.Store(true)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(failure); ok {
					rec = &failRec{raw, f.msg, src}
					return
				}
				if f, ok := e.(fatal); ok {
					Fatal("%s", string(f))
				}
				rec = &failRec{raw, fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack())), src}
			}
		}()
		if r.reset != nil {
			r.reset()
		}
		k := hash(raw)
		time.Local = localZones[k%uint64(len(localZones))]
		if err := os.Chdir(workDirs[(k>>8)%uint64(len(workDirs))]); err != nil {
			Fatal("%v", err)
		}
		if s.AnySwitch && Switch != nil {
			Switch(k>>16&1 == 1)
		}
		s.Check(c, v)
	}()
	if r.reset != nil {
		r.reset()
	}
	r.inCase.Store(false)
	if count {
		r.evals++
		for _, t := range c.tags {
			r.classes[t]++
		}
		if c.nontriv {
			r.distinct[hash(raw)] = struct{}{}
			want := len(r.samples) < 3
			for _, t := range c.tags {
				if !r.sampTags[t] && len(r.samples) < 8 {
					want = true
				}
			}
			if want && len(raw) < 6000 {
				for _, t := range c.tags {
					r.sampTags[t] = true
				}
				r.samples = append(r.samples, map[string]any{"source": src, "classes": c.tags, "case": json.RawMessage(raw)})
			}
		}
	}
	return rec
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

type tb struct {
	r      *runner
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func (s *Spec[T]) run(r *runner) {
	r.rule, r.assume, r.exh, r.cpuLimit = s.Rule, s.Assumptions, s.Exhaustive, s.CPULimit
	if s.Sweep != nil {
		var rec *failRec
		c := &Ctx{Tier: r.tier, Seed: r.seed, r: r}
		s.Sweep(c, func(v T) bool {
			r.sweeps++
			rec = one(r, s, v, "sweep", true)
			return rec == nil
		})
		if rec != nil {
			r.finishViolation(rec)
		}
	}
	if s.Gen != nil {
		n := s.Quick
		if r.tier == "thorough" && s.Thorough > 0 {
			n = s.Thorough
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		seed := hash([]byte(fmt.Sprintf("%s/%d", s.ID, r.seed)))
		if seed == 0 {
			seed = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "25s")
		t := &tb{r: r}
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			rapid.Check(t, func(rt *rapid.T) {
				v := s.Gen(rt)
				count := r.first == nil
				if count {
					r.generated++
				}
				rec := one(r, s, v, "generated", count)
				if rec != nil {
					if r.first == nil {
						r.first = rec
					}
					if r.best == nil || len(rec.raw) <= len(r.best.raw) {
						r.best = rec
					}
					// one line, so that rapid sees all failures of a case alike
					rt.Fatalf("violation")
				}
			})
		}()
		e := <-done
		if e != nil {
			if _, ok := e.(tbStop); !ok {
				Fatal("rapid: %v\n%s", e, t.log.String())
			}
		}
		if r.best != nil {
			r.finishViolation(r.best)
		}
		if t.failed {
			Fatal("rapid reports: %s", t.log.String())
		}
	}
}

func (s *Spec[T]) replay(r *runner, raw json.RawMessage) {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		Fatal("replay: %v", err)
	}
	r.cpuLimit = s.CPULimit
	rec := one(r, s, v, "replay", true)
	if rec != nil {
		fmt.Printf("%s\n", rec.msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.ID, os.Getenv("VERIF_REPLAY"))
		os.Exit(1)
	}
	fmt.Println("the case passes")
	os.Exit(0)
}

type fatal string

// Fatal ends the run as an error of the check.
func Fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(2)
}

func (r *runner) knownHit(key string) bool {
	if _, ok := r.known[key]; ok {
		r.hit[key] = true
		return true
	}
	return false
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "KNOWN-FINDING: property="+id+" ")
		if !ok {
			continue
		}
		rest, ok = strings.CutPrefix(rest, "key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		m[key] = what
	}
	return m
}

func (r *runner) finishViolation(rec *failRec) {
	dir := filepath.Join(r.dir, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.p.id(), hash(rec.raw)))
	doc := map[string]any{"property": r.p.id(), "case": rec.raw, "message": rec.msg, "source": rec.src, "tier": r.tier, "seed": r.seed,
		"replay": fmt.Sprintf("bash run.sh %s replay %s", r.p.id(), path),
		"note":   "if the case passes on its own the failure needs the cases before it: run the check again with this seed and tier"}
	if r.first != nil && r.first != rec {
		doc["first_failing_case"] = r.first.raw
		doc["first_message"] = r.first.msg
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(path, b, 0644)
	r.evidence(1, rec)
	fmt.Printf("%s\ncase: %s\n", rec.msg, clip(string(rec.raw), 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.p.id(), path)
	os.Exit(1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *runner) evidence(viol int, rec *failRec) {
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
		"swept_cases":         r.sweeps,
		"generated_cases":     r.generated,
		"classes":             r.classes,
	}
	if r.points > 0 {
		cov["elementary_comparisons"] = r.points
	}
	if r.exh && viol == 0 {
		cov["exhaustive"] = true
	}
	if len(r.hit) > 0 {
		var k []string
		for x := range r.hit {
			k = append(k, x)
		}
		sort.Strings(k)
		cov["known_findings_seen"] = k
	}
	doc := map[string]any{
		"property": r.p.id(), "tier": r.tier, "seed": r.seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": viol,
		"assumptions": append([]string{}, r.assume...),
	}
	if rec != nil {
		doc["violation"] = clip(rec.msg, 4000)
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		Fatal("evidence: %v", err)
	}
	dir := filepath.Join(r.dir, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, r.p.id()+".json"), b, 0644); err != nil {
		Fatal("evidence: %v", err)
	}
}

// Main runs: BIN ID quick|thorough, or BIN ID replay FILE.
// reset puts the global state of the code under test back before each case.
func Main(reset func()) {
	testing.Init()
	time.Local = localZones[0]
	if len(os.Args) < 3 {
		Fatal("usage: BIN ID quick|thorough|replay [FILE]")
	}
	id, mode := os.Args[1], os.Args[2]
	flag.CommandLine.Parse(nil)
	p, ok := props[id]
	if !ok {
		Fatal("no property %s in this binary", id)
	}
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			n = int64(hash([]byte(v)) >> 1)
		}
		seed = n
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		Fatal("VERIF_DIR is not set")
	}
	r := &runner{p: p, tier: mode, seed: seed, dir: dir, start: time.Now(), distinct: map[uint64]struct{}{},
		classes: map[string]int64{}, sampTags: map[string]bool{}, hit: map[string]bool{}, reset: reset, cpuLimit: 60}
	r.known = loadKnown(filepath.Join(dir, "known_findings.txt"), id)
	makeWorkDirs()
	go r.watchdog()
	if mode == "replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			Fatal("%v", err)
		}
		os.Setenv("VERIF_REPLAY", os.Args[3])
		var doc struct {
			Case json.RawMessage `json:"case"`
		}
		if err := json.Unmarshal(b, &doc); err != nil {
			Fatal("%v", err)
		}
		p.replay(r, doc.Case)
		return
	}
	p.run(r)
	var keys []string
	for k := range r.hit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", id, k, r.known[k])
	}
	r.evidence(0, nil)
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d comparisons=%d wall=%.1fs\n", id, mode, seed, r.evals, len(r.distinct), r.points, time.Since(r.start).Seconds())
	runtime.KeepAlive(r)
}
