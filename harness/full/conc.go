package full

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// Batch is what the goroutines of one fresh process ask; all start together.
type Batch struct {
	Exc    bool
	Rounds int
	Q      [][]Query
}

// RunBatch asks everything concurrently and judges the answers afterwards.
func RunBatch(b Batch) string {
	Prepare()
	su.UseExceptions = b.Exc
	for round := 0; round < b.Rounds; round++ {
		answers := make([][]Answer, len(b.Q))
		panics := make([]string, len(b.Q))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range b.Q {
			answers[g] = make([]Answer, len(b.Q[g]))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						panics[g] = fmt.Sprintf("goroutine %d of round %d panics: %v", g, round, e)
					}
				}()
				<-start
				for i, q := range b.Q[g] {
					answers[g][i] = Ask(q)
					if a := answers[g][i]; a.Ruin != nil && i%3 == 2 {
						a.Ruin()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for g := range b.Q {
			if panics[g] != "" {
				return panics[g]
			}
			for i, q := range b.Q[g] {
				if m := Judge(q, answers[g][i], b.Exc); m != "" {
					return fmt.Sprintf("goroutine %d of round %d, query %+v (exceptions %v): %s", g, round, q, b.Exc, m)
				}
			}
		}
		if su.UseExceptions != b.Exc {
			return "the exceptions switch changed"
		}
	}
	return ""
}

func init() {
	h.Register(h.Spec[Batch]{
		ID: "C26",
		Rule: "batches of 2..16 goroutines (every kind of query also in 150, ranges also of 35 and 180 years) asking 1..8 queries each or reading one result that all have, all starting together in a fresh process built with the race detector, one to three rounds; half of the batches have all goroutines begin with the same query, so that first use collides. " +
			"Every answer against the reference, no race report, no crash, no deadlock. Non-trivial: at least two goroutines ask the same query or use the same recorded year.",
		Quick: 110, Thorough: 1500, CPULimit: 300,
		Gen: func(t *rapid.T) Batch {
			g := rapid.Map(genQuery(), func(q Query) Query {
				// one in four ranges is read by all who ask for it
				if q.Op == "json" || q.Op == "range" && q.From.Unix/86400%4 == 0 {
					q.Op = "shared"
				}
				return q
			})
			pool := rapid.SliceOfN(g, 1, 10).Draw(t, "pool")
			n := rapid.IntRange(2, 16).Draw(t, "goroutines")
			same := rapid.Bool().Draw(t, "same first")
			b := Batch{Exc: rapid.Bool().Draw(t, "exceptions"), Rounds: rapid.IntRange(1, 3).Draw(t, "rounds")}
			for i := 0; i < n; i++ {
				var qs []Query
				if same {
					qs = append(qs, pool[0])
				}
				for _, k := range rapid.SliceOfN(rapid.IntRange(0, len(pool)-1), 1, 7).Draw(t, "queries") {
					qs = append(qs, pool[k])
				}
				b.Q = append(b.Q, qs)
			}
			return b
		},
		Sweep: func(c *h.Ctx, yield func(Batch) bool) {
			rng := func(y int) Query {
				return Query{Op: "range", From: Instant{Unix: ref.FromCivil(y, 1, 1).Unix()}, To: Instant{Unix: ref.FromCivil(y+1, 1, 1).Unix()}}
			}
			kinds := []Query{rng(1994), {Op: "asset", Name: "astro-1994.json"}, {Op: "open", Name: "astro-1994.json"}, {Op: "dir", Name: "astro-1994.json"}, {Op: "local", Name: "astro-1994.json"}, {Op: "ical", Year: 2015}, {Op: "json", From: rng(1994).From, To: rng(1994).To}, {Op: "moons", From: rng(1993).From, To: rng(1995).To}, {Op: "listing", Year: 1997}, {Op: "year", Year: 1997},
				{Op: "asalha", Year: 1996}, {Op: "kattika", Year: 1950}, {Op: "day", Year: 1963, N: 103}, {Op: "next", Year: 1996, N: 14}, {Op: "horakhun", N: 484049}, {Op: "halfdays", From: rng(2015).From, To: rng(2016).To},
				{Op: "names", Name: "kattika", N: 2}, {Op: "degree", N: 12345}, {Op: "shared", From: rng(1994).From, To: rng(1995).To}}
			for i, a := range kinds { // many of a kind at once
				b := Batch{Exc: i%2 == 0, Rounds: 1}
				for len(b.Q) < 150 {
					b.Q = append(b.Q, []Query{a})
				}
				if !yield(b) {
					return
				}
			}
			for _, op := range []string{"range", "moons", "halfdays", "shared"} { // long ones
				kinds = append(kinds, Query{Op: op, From: rng(1985).From, To: rng(2019).To})
			}
			kinds = append(kinds, Query{Op: "range", From: rng(1880).From, To: rng(2060).To})
			for _, a := range kinds { // every kind against itself and against the range query
				for _, other := range []Query{a, kinds[0]} {
					b := Batch{Exc: true, Rounds: 2}
					for i := 0; i < 8; i++ {
						if i%2 == 0 {
							b.Q = append(b.Q, []Query{a, a, other})
						} else {
							b.Q = append(b.Q, []Query{other, a, a})
						}
					}
					if !yield(b) {
						return
					}
				}
			}
		},
		Assumptions: []string{"the race detector reports conflicting accesses that happen in the schedules run; schedules are chosen by the Go runtime, not enumerated"},
		Check: func(c *h.Ctx, v Batch) {
			bin := os.Getenv("VERIF_CONC")
			if bin == "" {
				h.Fatal("VERIF_CONC is not set")
			}
			in, _ := json.Marshal(v)
			for _, qs := range v.Q {
				for _, q := range qs {
					if q.Op == "local" {
						c.InRepo()
					}
				}
			}
			ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all")
			cmd.Stdin = bytes.NewReader(in)
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			c.ChildRunning(true)
			err := cmd.Run()
			c.ChildRunning(false)
			code := cmd.ProcessState.ExitCode()
			e := errb.String()
			switch {
			case err == nil && strings.Contains(out.String(), "batch done"):
			case ctx.Err() != nil:
				hung(c, cmd.ProcessState, "the batch")
			case code == 66 || strings.Contains(e, "WARNING: DATA RACE"):
				c.Failf("data race:\n%s", clipText(e, 3500))
			case code == 4:
				c.Failf("%s", clipText(out.String(), 3500))
			case code == 3:
				h.Fatal("child: %s", e)
			case strings.Contains(e, "fatal error:") || strings.Contains(e, "panic:") || strings.Contains(e, "goroutine stack exceeds"):
				if strings.Contains(e, "out of memory") || strings.Contains(e, "failed to create new OS thread") || strings.Contains(e, "ThreadSanitizer") {
					h.Fatal("child: %s", clipText(e, 2000))
				}
				c.Failf("the process crashed:\n%s", clipText(e, 3500))
			default:
				h.Fatal("child: %v %s", err, clipText(e, 2000))
			}
			seen := map[string]int{}
			n, shared := 0, false
			for g, qs := range v.Q {
				for _, q := range qs {
					n++
					k := fmt.Sprintf("%+v", q)
					if p, ok := seen[k]; ok && p != g {
						shared = true
					}
					seen[k] = g
				}
			}
			c.Points(n * v.Rounds)
			c.NonTrivial(shared)
			c.Class(len(v.Q) >= 8, "eight or more goroutines")
			c.Class(v.Rounds > 1, "warm rounds")
			first := true
			for _, qs := range v.Q[1:] {
				first = first && reflect.DeepEqual(qs[0], v.Q[0][0])
			}
			c.Class(first, "same first query")
		},
	})
}

// hung judges a child that was ended at the time limit by the CPU time it used:
// next to none is a deadlock, a lot is a run that does not end. Between the two
// the machine may just be slow, which says nothing.
func hung(c *h.Ctx, p *os.ProcessState, what string) {
	cpu := p.UserTime() + p.SystemTime()
	if cpu < time.Second || cpu > 60*time.Second {
		c.Failf("%s does not end (%v of CPU time used)", what, cpu)
	}
	h.Fatal("%s took too long, with %v of CPU time", what, cpu)
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
