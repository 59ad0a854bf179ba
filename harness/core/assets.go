package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	su "github.com/splendidmoons/suriya-go"
	"pgregory.net/rapid"

	"verif/h"
)

const astroDir = "/repo/data/astro"

var diskFiles map[string][]byte
var diskNames []string

// disk gives the data files as they are in the tree.
func disk() (map[string][]byte, []string) {
	if diskFiles != nil {
		return diskFiles, diskNames
	}
	diskFiles = map[string][]byte{}
	es, err := os.ReadDir(astroDir)
	if err != nil {
		h.Fatal("%v", err)
	}
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".json") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(astroDir, e.Name()))
		if err != nil {
			h.Fatal("%v", err)
		}
		diskFiles[e.Name()] = b
		diskNames = append(diskNames, e.Name())
	}
	sort.Strings(diskNames)
	if len(diskNames) < 100 {
		h.Fatal("only %d data files in %s", len(diskNames), astroDir)
	}
	return diskFiles, diskNames
}

// AssetOp is one use of the assets.
type AssetOp struct {
	Do     string // byte, mustbyte, string, muststring, open, dir, read, seek, stat, close, missing
	File   int    // index of the data file (modulo their number)
	Spell  int    // spelling of its path
	Local  bool
	Handle int
	N      int
	Whence int
	Name   string // of a missing file, or set for a seek to before the start
}

var spellings = []func(string) string{
	func(n string) string { return "/data/astro/" + n },
	func(n string) string { return "/data//astro/" + n },
	func(n string) string { return "/data/astro/./" + n },
	func(n string) string { return "/data/astro/../astro/" + n },
	func(n string) string { return "/" + filepath.Join("./data/astro", n) },
	func(n string) string { return "/x/../data/astro/" + n },
}

var missingNames = []string{"", "data/astro/astro-1990.json", "/data/astro/astro-1899.json", "/data/astro/astro-2041.json", "/data/astro/astro-1990.JSON",
	"/data/astro/astro-1990", "/data/astro/astro-1990.json.gz", "/astro-1990.json", "/data/astro-1990.json", "/data/Astro/astro-1990.json", "../data/astro/astro-1990.json", "/etc/passwd", "/suriya.go", "/data/astro/astro-0.json", "/data/astro/ astro-1990.json"}

type openFile struct {
	f    http.File
	want []byte
	name string
	pos  int64
}

func mustPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

func init() {
	type AssetCase struct {
		Ops []AssetOp
		Own bool // in a directory of its own, with the local files the operations write
	}
	h.Register(h.Spec[AssetCase]{
		ID: "C24", AnySwitch: true,
		Rule: "every data file by every access path, then generated sequences of opens, reads, seeks, closes and lookups of missing names over several files and handles, " +
			"against the bytes in data/astro, a third of them in a directory where files of those names are written, replaced and removed between, for the local option, with any bytes and times. Non-trivial: at least two reads on handles and two different files.",
		Quick: 20000, Thorough: 400000,
		Gen: func(t *rapid.T) AssetCase {
			own := rapid.IntRange(0, 2).Draw(t, "own directory") == 2
			dos := []string{"open", "read", "read", "read", "seek", "byte", "string", "mustbyte", "muststring", "dir", "stat", "close", "missing"}
			if own {
				dos = append(dos, "write", "write", "remove", "byte", "open")
			}
			return AssetCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AssetOp {
				o := AssetOp{Do: rapid.SampledFrom(dos).Draw(t, "do")}
				o.Handle = rapid.OneOf(rapid.IntRange(0, 1), rapid.IntRange(0, 5)).Draw(t, "handle")
				switch o.Do {
				case "missing":
					o.Name = rapid.OneOf(rapid.SampledFrom(missingNames), rapid.StringMatching(`/data/astro/astro-[0-9]{1,3}\.json`), rapid.StringMatching(`/[a-z/.]{0,12}x`)).Draw(t, "name")
					o.Local = rapid.Bool().Draw(t, "local")
				case "read":
					o.N = rapid.OneOf(rapid.IntRange(0, 64), rapid.IntRange(0, 6000), rapid.SampledFrom([]int{1, 512, 1 << 16})).Draw(t, "n")
				case "seek":
					o.Whence = rapid.IntRange(0, 2).Draw(t, "whence")
					o.N = rapid.IntRange(0, 5200).Draw(t, "n")
					if rapid.IntRange(0, 7).Draw(t, "before the start") == 0 {
						o.Name = "before"
					}
				case "stat":
				case "close":
					o.N = rapid.IntRange(0, 1).Draw(t, "twice")
				default:
					o.File = rapid.IntRange(0, 140).Draw(t, "file")
					if own {
						o.File %= 3
						o.N = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 9000)).Draw(t, "size")
					}
					o.Spell = rapid.IntRange(0, len(spellings)-1).Draw(t, "spell")
					o.Local = rapid.IntRange(0, 3).Draw(t, "local") == 0 || own && rapid.Bool().Draw(t, "local own")
				}
				return o
			}), 12, 60).Draw(t, "ops"), own}
		},
		Sweep: func(c *h.Ctx, yield func(AssetCase) bool) {
			_, names := disk()
			for i := range names {
				var ops []AssetOp
				for _, local := range []bool{false, true} {
					for _, do := range []string{"byte", "mustbyte", "string", "muststring"} {
						ops = append(ops, AssetOp{Do: do, File: i, Local: local, Spell: i % len(spellings)})
					}
					ops = append(ops, AssetOp{Do: "open", File: i, Local: local}, AssetOp{Do: "stat"}, AssetOp{Do: "read", N: 100}, AssetOp{Do: "read", N: 1 << 16}, AssetOp{Do: "read", N: 1}, AssetOp{Do: "close"},
						AssetOp{Do: "dir", File: i, Local: local}, AssetOp{Do: "read", N: 1 << 16})
				}
				if !yield(AssetCase{Ops: ops}) {
					return
				}
			}
			for _, n := range missingNames {
				if !yield(AssetCase{Ops: []AssetOp{{Do: "missing", Name: n}, {Do: "missing", Name: n, Local: true}}}) {
					return
				}
			}
		},
		Check: checkAssets[AssetCase](func(v AssetCase) ([]AssetOp, bool) { return v.Ops, v.Own }),
	})
}

func checkAssets[T any](get func(T) ([]AssetOp, bool)) func(c *h.Ctx, v T) {
	return func(c *h.Ctx, v T) {
		files, names := disk()
		hs := map[int]*openFile{}
		defer func() {
			for _, f := range hs {
				f.f.Close()
			}
		}()
		reads, used := 0, map[string]bool{}
		ops, own := get(v)
		local := files // local files, relative to the working directory
		dir := ""
		if own {
			local = map[string][]byte{}
			var err error
			if dir, err = os.MkdirTemp(os.Getenv("VERIF_WORK"), "case"); err != nil {
				h.Fatal("%v", err)
			}
			defer os.RemoveAll(dir)
			dir = filepath.Join(dir, "data", "astro")
			if err := os.MkdirAll(dir, 0755); err != nil {
				h.Fatal("%v", err)
			}
			if err := os.Chdir(filepath.Dir(filepath.Dir(dir))); err != nil {
				h.Fatal("%v", err)
			}
		}
		for _, o := range ops {
			if o.Local && !own {
				c.InRepo()
			}
		}
		for i, o := range ops {
			var name, p string
			var want []byte
			if o.Do != "missing" && o.Do != "read" && o.Do != "seek" && o.Do != "stat" && o.Do != "close" {
				name = names[o.File%len(names)]
				p = spellings[o.Spell%len(spellings)](name)
				want = files[name]
				used[name] = true
				if o.Local {
					var here bool
					if want, here = local[name]; !here && o.Do != "write" && o.Do != "remove" {
						o.Do, o.Name = "missing", p
					}
				}
			}
			at := fmt.Sprintf("op %d %+v (%s)", i, o, p)
			f := hs[o.Handle]
			switch o.Do {
			case "write", "remove":
				to := filepath.Join(dir, name)
				if o.Do == "remove" {
					os.Remove(to)
					delete(local, name)
					break
				}
				b := bytes.Repeat([]byte(fmt.Sprintf("op %d ", i)), o.N/5+1)[:o.N]
				switch o.Spell {
				case 1, 2: // any bytes
					for k := range b {
						b[k] = byte(k*37 + i)
					}
				case 3: // as the embedded one, or more, or less
					b = append(append([]byte{}, files[name]...), b...)
					b = b[:len(b)-o.N/2]
				case 4: // as before but for a byte
					if old := local[name]; len(old) > 0 {
						b = append([]byte{}, old...)
						b[o.N%len(b)]++
					}
				}
				// handles on the old one keep it
				err := os.WriteFile(to+".new", b, 0644)
				if err == nil && o.Local {
					// a file can be older than the one it replaces
					at := time.Unix(1500000000, 0)
					err = os.Chtimes(to+".new", at, at)
				}
				if err == nil {
					err = os.Rename(to+".new", to)
				}
				if err != nil {
					h.Fatal("%v", err)
				}
				local[name] = b
				c.Class(true, "local files written")
			case "byte":
				b, err := su.FSByte(o.Local, p)
				c.Check(err == nil, "%s: %v", at, err)
				c.Check(bytes.Equal(b, want), "%s: %d bytes differ from the %d on disk", at, len(b), len(want))
			case "mustbyte":
				c.Check(bytes.Equal(su.FSMustByte(o.Local, p), want), "%s: bytes differ from those on disk", at)
			case "string":
				s, err := su.FSString(o.Local, p)
				c.Check(err == nil && s == string(want), "%s: %v, or text differs from that on disk", at, err)
			case "muststring":
				c.Check(su.FSMustString(o.Local, p) == string(want), "%s: text differs from that on disk", at)
			case "open", "dir":
				var nf http.File
				var err error
				if o.Do == "open" {
					nf, err = su.FS(o.Local).Open(p)
				} else {
					prefix, rest := "/data", "/astro/"+name
					if o.Spell%2 == 1 {
						prefix, rest = "/data/astro", "/"+name
					}
					nf, err = su.Dir(o.Local, prefix).Open(rest)
				}
				c.Check(err == nil, "%s: %v", at, err)
				if f != nil {
					f.f.Close()
				}
				hs[o.Handle] = &openFile{f: nf, want: want, name: name}
			case "read":
				if f == nil {
					continue
				}
				buf := make([]byte, o.N)
				n, err := io.ReadFull(f.f, buf)
				rest := f.want[min(f.pos, int64(len(f.want))):]
				exp := min(len(rest), o.N)
				c.Check(n == exp && bytes.Equal(buf[:n], rest[:exp]), "%s: read %d bytes of %s at %d, want %d, or they differ", at, n, f.name, f.pos, exp)
				c.Check((err == nil) == (exp == o.N), "%s: reading %d at %d of %d: error %v", at, o.N, f.pos, len(f.want), err)
				f.pos += int64(n)
				reads++
			case "seek":
				if f == nil {
					continue
				}
				off := int64(o.N)
				to := off
				switch o.Whence {
				case 1:
					to = f.pos + off
				case 2:
					off = -off
					if -off > int64(len(f.want)) {
						off = 0
					}
					to = int64(len(f.want)) + off
				}
				if o.Name != "" { // to before the start
					if o.Whence == 2 {
						off = -int64(len(f.want)) - 1 - int64(o.N)
					} else if o.Whence == 1 {
						off = -f.pos - 1 - int64(o.N)
					} else {
						off = -1 - int64(o.N)
					}
					_, err := f.f.Seek(off, o.Whence)
					c.Check(err != nil, "%s: seeking to before the start gives no error", at)
					break
				}
				got, err := f.f.Seek(off, o.Whence)
				c.Check(err == nil && got == to, "%s: seek gives %d, %v, want %d", at, got, err, to)
				f.pos = to
			case "stat":
				if f == nil {
					continue
				}
				st, err := f.f.Stat()
				c.Check(err == nil, "%s: %v", at, err)
				c.Check(st.Size() == int64(len(f.want)) && st.Name() == f.name && !st.IsDir(), "%s: stat of %s gives %s, %d bytes, dir %v", at, f.name, st.Name(), st.Size(), st.IsDir())
			case "close":
				if f == nil {
					continue
				}
				c.Check(f.f.Close() == nil, "%s: close fails", at)
				if o.N > 0 {
					// nobody else's file is closed or given away by this
					f.f.Close()
					c.Class(true, "closed twice")
				}
				delete(hs, o.Handle)
			case "missing":
				b, err := su.FSByte(o.Local, o.Name)
				c.Check(err != nil && errors.Is(err, os.ErrNotExist) && len(b) == 0, "%s: a missing name gives %d bytes and error %v", at, len(b), err)
				_, err = su.FSString(o.Local, o.Name)
				c.Check(err != nil && errors.Is(err, os.ErrNotExist), "%s: a missing name as text gives error %v", at, err)
				_, err = su.FS(o.Local).Open(o.Name)
				c.Check(err != nil && errors.Is(err, os.ErrNotExist), "%s: opening a missing name gives error %v", at, err)
				c.Check(mustPanics(func() { su.FSMustByte(o.Local, o.Name) }), "%s: FSMustByte does not panic", at)
				c.Check(mustPanics(func() { su.FSMustString(o.Local, o.Name) }), "%s: FSMustString does not panic", at)
				c.Class(true, "missing name")
			}
			c.Points(1)
			c.Class(o.Local, "local")
			c.Class(o.Do == "dir", "prefix directory")
		}
		c.NonTrivial(reads >= 2 && len(used) >= 2)
	}
}
