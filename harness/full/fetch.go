package full

import (
	"bytes"
	"context"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/h"
)

// FetchCase is one run of the download script, with stand-ins for the network
// and the clock.
type FetchCase struct {
	From, To int
	ID, Key  string
	Missing  int      // 0 nothing; 1 id, 2 key, 4 to, 8 both years left out (bits)
	Body     []string // the responses, in turn
	Latency  []int    // seconds of the requests, in turn
	Sleep    []int    // seconds slept over what was asked, in turn
	Clock    int64    // at the start
	Existing bool     // files of the years are there already, longer
	Exit     []int    // exit statuses of the requests, in turn
	Empty    bool     // credentials left out are empty, not unset
	Dir      string   // name of the working directory
}

// old is what the file of a year holds before.
func (v FetchCase) old(y int) string {
	switch y % 3 {
	case 0:
		return strings.Repeat("old ", 30*(y%100)) // some empty
	case 1:
		b, err := os.ReadFile(filepath.Join(h.RepoDir, "data/astro/astro-1990.json"))
		if err != nil {
			h.Fatal("%v", err)
		}
		return string(b)
	}
	return strings.Repeat("old\n", 3000)
}

// body is the response to the n-th request.
func (v FetchCase) body(n int) string {
	b := v.Body[(n-1)%len(v.Body)]
	if b == "large" {
		b = strings.Repeat("0123456789abcdef\n", 20000)
	}
	return fmt.Sprintf("%d %s", n, b)
}

var stubs = map[string]string{
	"curl": `#!/bin/sh
read n < "$STUB/n"; n=$((n+1)); echo $n > "$STUB/n"
read t < "$STUB/clock"
url=; out=; prev=
for a in "$@"; do
	case "$prev" in -o|--output) out="$a";; esac
	case "$prev" in -d|--data|--data-urlencode|--data-raw) data="$data&$a";; esac
	case "$a" in http*) url="$a";; --url=*) url="${a#--url=}";; --output=*) out="${a#--output=}";; -G|--get) get=1;; esac
	prev="$a"
done
if [ -n "$get" ] && [ -n "$data" ]; then
	case "$url" in *\?*) url="$url$data";; *) url="$url?${data#&}";; esac
fi
printf '%s\t%s\n' "$t" "$url" >> "$STUB/log"
lat=0; [ -f "$STUB/lat$n" ] && read lat < "$STUB/lat$n"
echo $((t+lat)) > "$STUB/clock"
if [ -n "$out" ] && [ "$out" != - ]; then cat "$STUB/body$n" > "$out"; else cat "$STUB/body$n"; fi
[ -f "$STUB/exit$n" ] && read e < "$STUB/exit$n" && exit $e
exit 0
`,
	"date": `#!/bin/sh
read t < "$STUB/clock"
echo d >> "$STUB/dates"
exec /bin/date -d "@$t" "$@"
`,
	"sleep": `#!/bin/sh
read t < "$STUB/clock"
read k < "$STUB/k"; k=$((k+1)); echo $k > "$STUB/k"
s=0
for a in "$@"; do
	case "$a" in *m) a=$((${a%m}*60));; *h) a=$((${a%h}*3600));; esac
	a=${a%s}; case "$a" in *.*) a=$((${a%%.*}+1));; esac
	s=$((s+a))
done
over=0; [ -f "$STUB/over$((k%20))" ] && read over < "$STUB/over$((k%20))"
echo $((t+s+over)) > "$STUB/clock"
`,
}

type fetched struct {
	at  int64
	url string
}

// fetch runs the script and gives the requests it made, whether it looked at
// the clock, and its output.
func fetch(c *h.Ctx, v FetchCase, real bool) (reqs []fetched, dated bool, files map[string]string, out string, code int) {
	dir := scratch()
	defer os.RemoveAll(dir)
	stub, work := filepath.Join(dir, "stub"), filepath.Join(dir, "work"+v.Dir)
	put := func(name, s string) {
		if err := os.WriteFile(filepath.Join(stub, name), []byte(s), 0o755); err != nil {
			h.Fatal("%v", err)
		}
	}
	os.Mkdir(stub, 0o755)
	os.Mkdir(work, 0o755)
	for n, s := range stubs {
		if real && n != "curl" {
			continue
		}
		if real {
			s = strings.Replace(s, `read t < "$STUB/clock"`, "t=$(/bin/date +%s)", 1)
			s = strings.Replace(s, `echo $((t+lat)) > "$STUB/clock"`, "/bin/sleep $lat", 1)
		}
		put(n, s)
	}
	put("n", "0\n")
	put("k", "0\n")
	put("clock", fmt.Sprintln(v.Clock))
	put("log", "")
	for i := 1; i <= 80; i++ {
		b := ""
		if len(v.Body) > 0 {
			b = v.body(i)
		}
		if len(v.Exit) > 0 {
			put(fmt.Sprint("exit", i), fmt.Sprintln(v.Exit[(i-1)%len(v.Exit)]))
		}
		put(fmt.Sprint("body", i), b)
		if len(v.Latency) > 0 {
			put(fmt.Sprint("lat", i), fmt.Sprintln(v.Latency[(i-1)%len(v.Latency)]))
		}
	}
	for i := 0; i < 20 && len(v.Sleep) > 0; i++ {
		put(fmt.Sprint("over", i), fmt.Sprintln(v.Sleep[i%len(v.Sleep)]))
	}
	if v.Existing {
		for y := v.From; y <= v.To; y++ {
			os.WriteFile(filepath.Join(work, fmt.Sprintf("astro-%d.json", y)), []byte(v.old(y)), 0o644)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 250*time.Second)
	defer cancel()
	args := []string{filepath.Join(h.RepoDir, "utils/get-astromoons.sh")}
	if v.Missing&8 == 0 {
		args = append(args, strconv.Itoa(v.From))
		if v.Missing&4 == 0 {
			args = append(args, strconv.Itoa(v.To))
		}
	}
	cmd := exec.CommandContext(ctx, "/bin/bash", args...)
	cmd.Dir = work
	cmd.Env = []string{"PATH=" + stub + ":/usr/bin:/bin", "HOME=" + dir, "STUB=" + stub}
	for i, e := range []string{"CLIENT_ID=" + v.ID, "CLIENT_SECRET=" + v.Key} {
		if v.Missing&(1<<i) == 0 {
			cmd.Env = append(cmd.Env, e)
		} else if v.Empty {
			cmd.Env = append(cmd.Env, e[:strings.Index(e, "=")+1])
		}
	}
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	c.ChildRunning(true)
	err := cmd.Run()
	c.ChildRunning(false)
	if ctx.Err() != nil {
		hung(c, cmd.ProcessState, "the download script")
	}
	if cmd.ProcessState == nil {
		h.Fatal("bash: %v", err)
	}
	code = cmd.ProcessState.ExitCode()
	lines, _ := os.ReadFile(filepath.Join(stub, "log"))
	for _, l := range strings.Split(string(lines), "\n") {
		if t, u, ok := strings.Cut(l, "\t"); ok {
			at, _ := strconv.ParseInt(t, 10, 64)
			reqs = append(reqs, fetched{at, u})
		}
	}
	_, e := os.Stat(filepath.Join(stub, "dates"))
	files = map[string]string{}
	es, _ := os.ReadDir(work)
	for _, f := range es {
		b, _ := os.ReadFile(filepath.Join(work, f.Name()))
		files[f.Name()] = string(b)
	}
	return reqs, e == nil, files, o.String(), code
}

// paced gives what is wrong with the times of the requests.
func paced(reqs []fetched) string {
	for i := 10; i < len(reqs); i++ {
		if d := reqs[i].at - reqs[i-10].at; d < 60 {
			return fmt.Sprintf("request %d is %d seconds after request %d, the service allows 10 a minute", i+1, d, i-9)
		}
	}
	return ""
}

var pace struct {
	once    sync.Once
	virtual bool
	wrong   string
}

func init() {
	h.Register(h.Spec[FetchCase]{
		ID: "C43",
		Rule: "runs of utils/get-astromoons.sh with stand-ins for curl, date and sleep: 0..35 years, any credentials, responses, times of the requests and of sleeping, requests that fail, over existing files, with credentials or years left out; the requests with their times and the files written. " +
			"Non-trivial: more than ten years, or something left out.",
		Quick: 130, Thorough: 2000,
		Assumptions: []string{"the service is a stand-in; that it answers such requests is not tested"},
		Gen: func(t *rapid.T) FetchCase {
			word := rapid.StringMatching(`[A-Za-z0-9_]{1,24}`)
			v := FetchCase{From: rapid.OneOf(rapid.IntRange(1900, 2041), rapid.IntRange(1, 3000)).Draw(t, "from"), ID: word.Draw(t, "id"), Key: word.Draw(t, "key"), Clock: rapid.Int64Range(0, 4e9).Draw(t, "clock"),
				Body:    rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]string{"", "{}\n", "{\"success\":true}", "a\n\n", "%s \\n \t", "* $HOME", "ā ṃ", "a\x00b\n", "large", "\r\n-n -e", "no end of line"}), rapid.StringN(0, 60, 200)), 1, 5).Draw(t, "body"),
				Latency: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 7, 9, 15, 61}), 0, 14).Draw(t, "latency"),
				Sleep:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 3, 8, 20}), 1, 5).Draw(t, "sleep"), Existing: rapid.Bool().Draw(t, "existing"),
				Dir: rapid.SampledFrom([]string{"", " x", "*", "ā 'y'"}).Draw(t, "dir")}
			if rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
				v.Exit = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 6, 7, 22, 28, 56}), 1, 14).Draw(t, "exit")
			}
			v.To = v.From + rapid.OneOf(rapid.IntRange(-2, 3), rapid.IntRange(8, 13), rapid.IntRange(8, 35)).Draw(t, "years")
			if rapid.IntRange(0, 5).Draw(t, "missing") == 0 {
				v.Missing, v.Empty = rapid.IntRange(1, 15).Draw(t, "what"), rapid.Bool().Draw(t, "empty")
			}
			return v
		},
		Sweep: func(c *h.Ctx, yield func(FetchCase) bool) {
			for n := 0; n <= 23; n++ {
				if !yield(FetchCase{From: 1990, To: 1990 + n - 1, ID: "id", Key: "key", Body: []string{"x\n"}, Sleep: []int{4}, Clock: 1700000000}) {
					return
				}
			}
			for m := 1; m < 16; m++ {
				if !yield(FetchCase{From: 1990, To: 1991, ID: "id", Key: "key", Body: []string{"x\n"}, Missing: m, Clock: 1700000000, Existing: m%2 == 0, Empty: m < 6}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v FetchCase) {
			Prepare()
			pace.once.Do(func() {
				// whether the script reads the time with date; if not, only the real
				// time can tell
				p := FetchCase{From: 1990, To: 2001, ID: "i", Key: "k", Clock: 1700000000, Sleep: []int{20}}
				start := time.Now()
				reqs, dated, _, _, _ := fetch(c, p, false)
				pace.virtual = dated || paced(reqs) == "" && time.Since(start) < 30*time.Second
				if pace.virtual {
					return
				}
				slow := p
				slow.To, slow.Latency = 2002, []int{6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 0, 0, 0, 0}
				more := p
				more.To = 2010
				var wg sync.WaitGroup
				wrong := make([]string, 3)
				for i, p := range []FetchCase{p, slow, more} {
					wg.Add(1)
					go func() {
						defer wg.Done()
						reqs, _, _, _, _ := fetch(c, p, true)
						wrong[i] = paced(reqs)
					}()
				}
				wg.Wait()
				pace.wrong = strings.Join(wrong, "")
			})
			if !pace.virtual {
				// no more waits of minutes
				v.To = min(v.To, v.From+9)
			}
			c.Check(pace.wrong == "", "%s (in real time)", pace.wrong)
			reqs, _, files, out, code := fetch(c, v, false)
			if v.Missing != 0 {
				c.Check(code == 1 && strings.Contains(out, "Usage"), "%+v: exit status %d, output %q", v, code, out)
				c.Check(len(reqs) == 0, "%+v: requests %v", v, reqs)
			}
			want := max(v.To-v.From+1, 0)
			if v.Missing != 0 {
				want = 0
			} else {
				c.Check(len(reqs) == want, "%+v: %d requests, want %d", v, len(reqs), want)
			}
			seen := map[string]bool{}
			for i, r := range reqs {
				u, err := url.Parse(r.url)
				c.Check(err == nil, "request %d: %v", i, err)
				q := u.Query()
				y := strconv.Itoa(v.From + i)
				c.Check(u.Scheme == "http" || u.Scheme == "https", "request %q", r.url)
				c.Check(u.Host == "api.aerisapi.com" && u.Path == "/sunmoon/moonphases/london,uk", "request %q", r.url)
				for k, w := range map[string]string{"from": y + "/01/01", "to": y + "/12/31", "limit": "250", "client_id": v.ID, "client_secret": v.Key} {
					c.Check(len(q[k]) == 1 && q.Get(k) == w, "request %d %q: %s is %q, want %q", i+1, r.url, k, q[k], w)
				}
				f := "astro-" + y + ".json"
				seen[f] = true
				w := v.body(i + 1)
				g, ok := files[f]
				c.Check(ok && g == w, "%s holds %q (%v), the response is %q", f, clipText(g, 200), ok, clipText(w, 200))
				c.Points(7)
			}
			for f, s := range files {
				y, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(f, "astro-"), ".json"))
				if v.Existing && !seen[f] && y >= v.From && y <= v.To {
					c.Check(s == v.old(y), "%s is changed to %q", f, clipText(s, 200))
				} else {
					c.Check(seen[f], "file %s is left", f)
				}
			}
			if v.Missing == 0 && len(v.Exit) == 0 {
				c.Check(code == 0, "exit status %d, output %q", code, out)
			}
			if pace.virtual {
				p := paced(reqs)
				c.Check(p == "", "%+v: %s", v, p)
			}
			c.NonTrivial(want > 10 || v.Missing != 0)
			c.Class(want > 10, "waits")
			c.Class(len(v.Exit) > 0 && want > 0, "requests fail")
			c.Class(v.Missing != 0, "left out")
			c.Class(want == 0 && v.Missing == 0, "no years")
		},
	})
}
