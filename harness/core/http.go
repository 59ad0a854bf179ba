package core

import (
	"bytes"
	"fmt"
	"io"
	"mime"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
)

// WebRequest is one request to a file server over the assets.
type WebRequest struct {
	Method string
	File   int    // index of the data file (modulo their number)
	Name   string // of a missing file, instead
	Root   int    // 0 the whole, 1 a prefix directory, 2 with the prefix stripped
	Local  bool
	Range  string `json:",omitempty"`
	Since  int    `json:",omitempty"` // If-Modified-Since, seconds from the file's time, 0 none
	IfR    int    `json:",omitempty"` // If-Range likewise
}

// bodyParts gives what a response carries, in parts when it is multipart.
func bodyParts(r *http.Response, b []byte) []string {
	t, p, err := mime.ParseMediaType(r.Header.Get("Content-Type"))
	if err != nil || t != "multipart/byteranges" {
		return []string{string(b)}
	}
	var out []string
	m := multipart.NewReader(bytes.NewReader(b), p["boundary"])
	for {
		part, err := m.NextPart()
		if err != nil {
			if err != io.EOF {
				out = append(out, err.Error())
			}
			return out
		}
		x, _ := io.ReadAll(part)
		out = append(out, part.Header.Get("Content-Range")+"|"+part.Header.Get("Content-Type")+"|"+string(x))
	}
}

// dated are the times of the files as they were first given.
var dated = map[string]time.Time{}

func init() {
	type WebCase struct{ Reqs []WebRequest }
	rng := rapid.Custom(func(t *rapid.T) string {
		one := rapid.Custom(func(t *rapid.T) string {
			a, b := rapid.IntRange(0, 6000).Draw(t, "a"), rapid.IntRange(0, 6000).Draw(t, "b")
			switch rapid.IntRange(0, 4).Draw(t, "shape") {
			case 0:
				return fmt.Sprintf("%d-", a)
			case 1:
				return fmt.Sprintf("-%d", b)
			case 2:
				return fmt.Sprintf("%d-%d", a, a+b%50)
			}
			return fmt.Sprintf("%d-%d", a, b)
		})
		return "bytes=" + strings.Join(rapid.SliceOfN(one, 1, 3).Draw(t, "ranges"), ",")
	})
	h.Register(h.Spec[WebCase]{
		ID: "C39", AnySwitch: true,
		Rule: "every data file requested whole, then generated sequences of 1..8 requests to file servers over the assets and their directories: GET and HEAD, whole and in parts, conditional, of present and missing files, embedded and local; status, headers and body against the file on disk served by the standard library. " +
			"Non-trivial: a part of a file, a conditional request, or two requests of one file.",
		Quick: 15000, Thorough: 300000,
		Gen: func(t *rapid.T) WebCase {
			return WebCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WebRequest {
				r := WebRequest{Method: rapid.SampledFrom([]string{"GET", "GET", "HEAD"}).Draw(t, "method"), File: rapid.OneOf(rapid.IntRange(0, 140), rapid.IntRange(90, 93)).Draw(t, "file"),
					Root: rapid.IntRange(0, 2).Draw(t, "root"), Local: rapid.IntRange(0, 3).Draw(t, "local") == 0}
				if rapid.IntRange(0, 5).Draw(t, "missing") == 0 {
					r.Name = rapid.OneOf(rapid.SampledFrom([]string{"astro-1899.json", "astro-2041.json", "nothing", "astro-1990", "astro-1990.json/x", "Astro-1990.json", "index.htm", "astro-19 90.json"}), rapid.StringMatching(`[a-z]{1,9}\.json`)).Draw(t, "name")
				}
				if rapid.Bool().Draw(t, "part") {
					r.Range = rng.Draw(t, "range")
				}
				if rapid.IntRange(0, 3).Draw(t, "conditional") == 0 {
					r.Since = rapid.SampledFrom([]int{-86400, -1, 1, 86400}).Draw(t, "since")
				}
				if rapid.IntRange(0, 3).Draw(t, "ifrange") == 0 {
					r.IfR = rapid.SampledFrom([]int{-1, 1, 1000}).Draw(t, "if-range")
				}
				return r
			}), 1, 8).Draw(t, "requests")}
		},
		Sweep: func(c *h.Ctx, yield func(WebCase) bool) {
			_, names := disk()
			for i := range names {
				var rs []WebRequest
				for _, local := range []bool{false, true} {
					for root := 0; root <= 2; root++ {
						rs = append(rs, WebRequest{Method: "GET", File: i, Root: root, Local: local}, WebRequest{Method: "HEAD", File: i, Root: root, Local: local},
							WebRequest{Method: "GET", File: i, Root: root, Local: local, Range: "bytes=50-99"}, WebRequest{Method: "GET", File: i, Root: root, Local: local, Since: 1})
					}
				}
				if !yield(WebCase{rs}) {
					return
				}
			}
		},
		Check: func(c *h.Ctx, v WebCase) {
			files, names := disk()
			for _, r := range v.Reqs {
				if r.Local {
					c.InRepo()
				}
			}
			used := map[string]int{}
			for i, r := range v.Reqs {
				name, want, present := r.Name, []byte(nil), r.Name == ""
				if present {
					name = names[r.File%len(names)]
					want = files[name]
				}
				var fs http.FileSystem
				url := "/data/astro/" + name
				var hd http.Handler
				switch r.Root {
				case 1:
					fs, url = su.Dir(r.Local, "/data/astro"), "/"+name
					hd = http.FileServer(fs)
				case 2:
					fs, url = su.Dir(r.Local, "/data"), "/files/astro/"+name
					hd = http.StripPrefix("/files", http.FileServer(fs))
				default:
					fs = su.FS(r.Local)
					hd = http.FileServer(fs)
				}
				at := fmt.Sprintf("request %d %+v of %s", i, r, name)
				req := httptest.NewRequest(r.Method, "http://host/", nil)
				req.URL.Path = url
				var mod time.Time
				if present {
					f, err := su.FS(r.Local).Open("/data/astro/" + name)
					c.Check(err == nil, "%s: %v", at, err)
					st, err := f.Stat()
					c.Check(err == nil, "%s: %v", at, err)
					mod = st.ModTime()
					f.Close()
					if r.Local {
						d, err := os.Stat("data/astro/" + name)
						c.Check(err == nil && d.ModTime().Equal(mod), "%s: modified %v, the file %v", at, mod, d)
					} else {
						// when the data was recorded, ever the same
						c.Check(mod.Year() >= 2010 && mod.Before(time.Now()), "%s: modified %v", at, mod)
						if was, ok := dated[name]; ok {
							c.Check(was.Equal(mod), "%s: modified %v, and before %v", at, mod, was)
						}
						dated[name] = mod
					}
				}
				if r.Range != "" {
					req.Header.Set("Range", r.Range)
				}
				if r.Since != 0 && present {
					req.Header.Set("If-Modified-Since", mod.Add(time.Duration(r.Since)*time.Second).UTC().Format(http.TimeFormat))
				}
				if r.IfR != 0 && present {
					d := r.IfR
					if d == 1 {
						d = 0
					}
					req.Header.Set("If-Range", mod.Add(time.Duration(d)*time.Second).UTC().Format(http.TimeFormat))
				}
				got := httptest.NewRecorder()
				hd.ServeHTTP(got, req)
				gr := got.Result()
				gb, _ := io.ReadAll(gr.Body)
				if !present {
					c.Check(gr.StatusCode == 404, "%s: status %d", at, gr.StatusCode)
					c.Class(true, "missing")
					c.Points(1)
					continue
				}
				exp := httptest.NewRecorder()
				http.ServeContent(exp, req, name, mod, bytes.NewReader(want))
				er := exp.Result()
				eb, _ := io.ReadAll(er.Body)
				c.Check(gr.StatusCode == er.StatusCode, "%s: status %d, want %d", at, gr.StatusCode, er.StatusCode)
				for _, k := range []string{"Content-Length", "Content-Range", "Accept-Ranges", "Last-Modified"} {
					c.Check(gr.Header.Get(k) == er.Header.Get(k), "%s: %s is %q, want %q", at, k, gr.Header.Get(k), er.Header.Get(k))
				}
				gt, _, _ := mime.ParseMediaType(gr.Header.Get("Content-Type"))
				et, _, _ := mime.ParseMediaType(er.Header.Get("Content-Type"))
				c.Check(gt == et, "%s: type %q, want %q", at, gt, et)
				c.Check(fmt.Sprint(bodyParts(gr, gb)) == fmt.Sprint(bodyParts(er, eb)), "%s: the body (%d bytes) is not that of the file (%d bytes)", at, len(gb), len(eb))
				if r.Method == "GET" && gr.StatusCode == 200 {
					c.Check(bytes.Equal(gb, want), "%s: %d bytes differ from the %d on disk", at, len(gb), len(want))
				}
				used[name]++
				c.Points(7)
				c.NonTrivial(r.Range != "" || r.Since != 0 || used[name] > 1)
				c.Class(true, fmt.Sprint("status ", gr.StatusCode))
				c.Class(r.Local, "local")
			}
		},
	})
}
