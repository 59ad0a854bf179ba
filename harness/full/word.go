package full

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

// WordCase is a batch of queries asked here and on a 32-bit platform.
type WordCase struct {
	Exc bool
	Q   []Query
}

// Answers gives the text of each answer, or what is wrong with it.
func Answers(b WordCase) []string {
	su.UseExceptions = b.Exc
	var out []string
	for _, q := range b.Q {
		out = append(out, func() (s string) {
			defer func() {
				if e := recover(); e != nil {
					s = fmt.Sprintf("panic: %v", e)
				}
			}()
			a := Ask(q)
			if a.Wrong != "" {
				return "wrong: " + a.Wrong
			}
			return a.Text
		}())
	}
	return out
}

// AnswerStdin answers a batch of queries read from stdin.
func AnswerStdin() {
	var b WordCase
	if err := json.NewDecoder(os.Stdin).Decode(&b); err != nil {
		h.Fatal("%v", err)
	}
	json.NewEncoder(os.Stdout).Encode(Answers(b))
}

func init() {
	h.Register(h.Spec[WordCase]{
		ID: "C42",
		Rule: "the elements, status, Asalha Puja, Kattika and days of every year 645..4000, and generated batches of 1..60 queries of every kind, asked here and in a process built for a 32-bit platform (386): both against each other, this one against the reference. " +
			"Non-trivial: a query outside of 1900..2100.",
		Quick: 150, Thorough: 4000,
		Gen: func(t *rapid.T) WordCase {
			g := genQuery().Filter(func(q Query) bool { return q.Op != "local" && q.Year <= 4000 })
			return WordCase{rapid.Bool().Draw(t, "exceptions"), rapid.SliceOfN(g, 1, 60).Draw(t, "queries")}
		},
		Sweep: func(c *h.Ctx, yield func(WordCase) bool) {
			for y := 645; y <= 4000; y += 150 {
				b := WordCase{Exc: y%2 == 0}
				for k := y; k < y+150 && k <= 4000; k++ {
					if k%9 == 0 || k == 1901 || k == 2037 {
						// over the end of the year
						q := Query{Op: "range", From: Instant{Unix: ref.FromCivil(k, 10, 1).Unix()}, To: Instant{Unix: ref.FromCivil(k+1, 3, 1).Unix()}}
						b.Q = append(b.Q, q)
						q.Op = "json"
						b.Q = append(b.Q, q)
					}
					b.Q = append(b.Q, Query{Op: "year", Year: k}, Query{Op: "asalha", Year: k}, Query{Op: "kattika", Year: k}, Query{Op: "next", Year: k, N: k % 25}, Query{Op: "horakhun", N: (k - 638) * 365})
					for d := k % 30; d <= 400; d += 30 {
						b.Q = append(b.Q, Query{Op: "day", Year: k, N: d - 10})
					}
				}
				if !yield(b) {
					return
				}
			}
		},
		Assumptions: []string{"386 stands for all 32-bit platforms"},
		Check: func(c *h.Ctx, v WordCase) {
			bin := os.Getenv("VERIF_PROBE32")
			if bin == "" {
				h.Fatal("VERIF_PROBE32 is not set")
			}
			Prepare()
			in, _ := json.Marshal(v)
			ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, bin)
			cmd.Stdin = bytes.NewReader(in)
			var o, e bytes.Buffer
			cmd.Stdout, cmd.Stderr = &o, &e
			c.ChildRunning(true)
			err := cmd.Run()
			c.ChildRunning(false)
			if ctx.Err() != nil {
				hung(c, cmd.ProcessState, "the 32-bit process")
			}
			if err != nil {
				if s := e.String(); strings.Contains(s, "fatal error:") && !strings.Contains(s, "out of memory") || strings.Contains(s, "panic:") {
					c.Failf("the 32-bit process crashed:\n%s", clipText(s, 3500))
				}
				h.Fatal("%s: %v %s", bin, err, clipText(e.String(), 2000))
			}
			var got []string
			if err := json.Unmarshal(o.Bytes(), &got); err != nil || len(got) != len(v.Q) {
				h.Fatal("probe: %v, %d answers to %d queries", err, len(got), len(v.Q))
			}
			su.UseExceptions = v.Exc
			for i, q := range v.Q {
				a := Ask(q)
				if m := Judge(q, a, v.Exc); m != "" {
					c.Failf("query %+v (exceptions %v): %s", q, v.Exc, m)
				}
				if got[i] != strings.ToValidUTF8(a.Text, "\uFFFD") {
					c.Failf("query %+v (exceptions %v) on a 32-bit platform is\n%s\nhere\n%s", q, v.Exc, clipText(got[i], 1500), clipText(a.Text, 1500))
				}
				c.Points(1)
				year := q.Year
				if year == 0 && q.From.Unix != 0 {
					year = ref.Day(q.From.Unix / 86400).Year()
				}
				c.NonTrivial(year != 0 && (year < 1900 || year > 2100))
				c.Class(true, q.Op)
			}
		},
	})
}
