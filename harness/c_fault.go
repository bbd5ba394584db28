package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C29", Level: "fault_enumeration", Rule: "each case counts the storage operations (open, stat, read, close) of a load without faults and then repeats it once for every operation, kind of fault and duration (once, or from then on); catalogue objects with contents, locales with several candidate files and a second domain, lazily loading package functions; also faults of a real directory tree (directories, dangling and looping links, files in place of directories, truncated and empty files); contents, other domains and languages, open files and the recovery after the fault are compared with the model; distinct by file, operation and fault",
		Need: []string{"faults_injected", "object_loads", "locale_loads", "package_loads", "real_tree_loads", "recoveries", "op:open", "op:stat", "op:read", "op:close", "op:readfile"},
		Run:  runC29})
}

var errEIO = &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}

type faultKind struct {
	name string
	err  error
}

// errStoragePanic stands for a storage that panics instead of failing (not one of faultKinds).
var errStoragePanic = errors.New("storage panics")

var faultKinds = []faultKind{
	{"not-exist", fs.ErrNotExist},
	{"permission", &fs.PathError{Op: "open", Path: "x", Err: fs.ErrPermission}},
	{"eio", errEIO},
	{"unexpected-eof", io.ErrUnexpectedEOF},
	{"wrapped", fmt.Errorf("wrapped: %w", fs.ErrNotExist)},
	{"closed", fs.ErrClosed},
	{"short", nil}, // the file ends early
	{"timeout", os.ErrDeadlineExceeded},
}

// faultFS is a file system that fails on demand.
type faultFS struct {
	mu    sync.Mutex
	files map[string][]byte
	dirs  map[string]bool
	n     int // operations so far
	at    int // first to fail; -1 none
	until int // first not to fail again
	kind  faultKind
	hit   []string // what failed
	ops   []string
	open  int
	chunk int // bytes per read; 0: all
	zero  bool
}

// step counts an operation and tells whether it has to fail.
func (f *faultFS) step(op, name string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	i := f.n
	f.n++
	f.ops = append(f.ops, op)
	if f.at >= 0 && i >= f.at && i < f.until {
		f.hit = append(f.hit, op+" "+name)
		if f.kind.err == errStoragePanic {
			panic(errStoragePanic)
		}
		if f.kind.err == nil {
			if op == "read" || op == "readfile" {
				return io.EOF
			}
			return errEIO
		}
		return f.kind.err
	}
	return nil
}

func (f *faultFS) reset(at, until int, k faultKind) {
	f.mu.Lock()
	f.n, f.at, f.until, f.kind, f.hit, f.ops = 0, at, until, k, nil, nil
	f.mu.Unlock()
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if err := f.step("open", name); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	b, ok := f.files[name]
	if !ok && !f.dirs[name] {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f.open++
	return &faultFile{f: f, name: name, r: bytes.NewReader(b), dir: f.dirs[name]}, nil
}

type faultFile struct {
	f      *faultFS
	name   string
	r      *bytes.Reader
	dir    bool
	closed bool
	zeros  int
}

func (x *faultFile) Stat() (fs.FileInfo, error) {
	if err := x.f.step("stat", x.name); err != nil {
		return nil, err
	}
	return faultInfo{slowInfo{x.name, x.r.Size()}, x.dir}, nil
}

func (x *faultFile) Read(p []byte) (int, error) {
	if err := x.f.step("read", x.name); err != nil {
		return 0, err
	}
	if x.dir {
		return 0, &fs.PathError{Op: "read", Path: x.name, Err: syscall.EISDIR}
	}
	if x.f.zero && x.zeros == 0 {
		x.zeros++
		return 0, nil
	}
	if c := x.f.chunk; c > 0 && len(p) > c {
		p = p[:c]
	}
	return x.r.Read(p)
}

func (x *faultFile) Close() error {
	x.f.mu.Lock()
	if !x.closed {
		x.closed = true
		x.f.open--
	}
	x.f.mu.Unlock()
	return x.f.step("close", x.name)
}

type faultInfo struct {
	slowInfo
	dir bool
}

func (i faultInfo) IsDir() bool { return i.dir }
func (i faultInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o555
	}
	return 0o444
}

// faultStatFS has its own Stat.
type faultStatFS struct{ *faultFS }

func (f faultStatFS) Stat(name string) (fs.FileInfo, error) {
	if err := f.step("stat", name); err != nil {
		return nil, err
	}
	b, ok := f.files[name]
	if !ok && !f.dirs[name] {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return faultInfo{slowInfo{name, int64(len(b))}, f.dirs[name]}, nil
}

// faultReadFS reads whole files itself.
type faultReadFS struct{ *faultFS }

func (f faultReadFS) ReadFile(name string) ([]byte, error) {
	err := f.step("readfile", name)
	b, ok := f.files[name]
	if err == io.EOF {
		return append([]byte(nil), b[:len(b)/2]...), nil // short, without an error
	}
	if err != nil {
		return append([]byte(nil), b[:len(b)/2]...), err // part of the file with an error
	}
	if !ok {
		if f.dirs[name] {
			return nil, &fs.PathError{Op: "read", Path: name, Err: syscall.EISDIR}
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return append([]byte(nil), b...), nil
}

// newFaultFS makes a file system of one of the three kinds.
func newFaultFS(r *rand.Rand) (*faultFS, fs.FS, string) {
	f := &faultFS{files: map[string][]byte{}, dirs: map[string]bool{}, at: -1, chunk: []int{0, 0, 7, 64}[r.Intn(4)], zero: r.Intn(4) == 0}
	switch r.Intn(3) {
	case 0:
		return f, faultStatFS{f}, "fs with Stat"
	case 1:
		return f, faultReadFS{f}, "fs with ReadFile"
	}
	return f, f, "plain fs"
}

func (t *T) countOps(f *faultFS) {
	for _, op := range f.ops {
		t.Count("op:"+op, 1)
	}
}

// faultPoints lists the operations of a load to fail: all, or a choice among very many.
func faultPoints(r *rand.Rand, n, max int) []int {
	var out []int
	if n <= max {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	seen := map[int]bool{}
	for i := 0; i < max; i++ {
		k := r.Intn(n)
		if i < max/3 {
			k = i
		} else if i < 2*max/3 {
			k = n - 1 - (i - max/3)
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

// answers reads everything a domain serves about the messages, as one comparable list.
func answers(o catalog, ps []Probe) []string {
	var out []string
	for _, p := range ps {
		if p.Ctx == "" {
			out = append(out, o.Get(p.ID), o.GetN(p.ID, p.Plural, p.N))
		} else {
			out = append(out, o.GetC(p.ID, p.Ctx), o.GetNC(p.ID, p.Plural, p.N, p.Ctx))
		}
	}
	return out
}

// answersOf is what the model says.
func (m *Model) answersOf(ps []Probe) []string {
	var out []string
	for _, p := range ps {
		out = append(out, m.get(p.Ctx, p.ID), m.getN(p.Ctx, p.ID, p.Plural, p.N))
	}
	return out
}

func equalStrings(a, b []string) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func runC29(c *C) {
	// one catalogue object with contents loads a file
	c.Cases("object", c.N(40, 1500), par(), func(t *T) {
		r := t.R
		f, vfs, what := newFaultFS(r)
		mo := r.Intn(2) == 0
		pool := []Key{}
		for i := 0; i < 4; i++ {
			pool = append(pool, genKey(r, &GenOpt{Hostile: true}, pool))
		}
		opt := GenOpt{Max: 5, Partial: true, NoRule: true, NoHeader: true, MaxForms: 3, KeyPool: pool, Refs: !mo}
		m0, m1 := genCatalogue(r, opt), genCatalogue(r, opt)
		b0, b1 := m0.RenderPO(nil), m1.RenderPO(r)
		name := "dir/file.po"
		if mo {
			b0, b1 = m0.RenderMO(nil, nil), m1.RenderMO(r, nil)
			name = "dir/file.mo"
		}
		f.files[name] = b1
		f.dirs["dir/folder.po"] = true
		both := m0.clone()
		both.load(m1)
		fresh := func() (catalog, func(string)) {
			if mo {
				x := gotext.NewMoFS(vfs)
				x.Parse(b0)
				return x, x.ParseFile
			}
			x := gotext.NewPoFS(vfs)
			x.Parse(b0)
			return x, x.ParseFile
		}
		probes := both.probes(r, 0)
		o, load := fresh()
		load(name)
		t.countOps(f)
		n := f.n
		if !t.state("load", both, o, false) {
			return
		}
		t.Logf("%s, %s, %d operations", what, name, n)
		for _, missing := range []string{"dir/none.po", "dir/folder.po", "dir", "", "/", "../x", "dir/file.po/", strings.Repeat("x/", 3000) + "y"} {
			o, load := fresh()
			load(missing)
			t.Count("object_loads", 1)
			if !t.state("unreadable", m0, o, false) {
				t.Logf("after ParseFile(%q)", cut(missing, 60))
				return
			}
		}
		for _, at := range faultPoints(r, n, 40) {
			for _, k := range faultKinds {
				for _, until := range []int{at + 1, 1 << 30} {
					o, load := fresh()
					f.reset(at, until, k)
					load(name)
					hit := append([]string(nil), f.hit...)
					t.Count("faults_injected", 1)
					t.Count("object_loads", 1)
					t.Distinct("object", what, fmt.Sprint(mo, at, until > at+1), k.name, fmt.Sprint(n))
					where := fmt.Sprintf("%s from operation %d to %d: %v", k.name, at, until-1, hit)
					if len(hit) == 0 {
						t.Failf("harness", "no fault: %s", where)
						return
					}
					if f.open != 0 {
						t.Failf("open-files", "%s: %d files left open", where, f.open)
						return
					}
					got := answers(o, probes)
					op := strings.Fields(hit[0])[0]
					short := k.err == nil && (op == "read" || op == "readfile")
					switch {
					case short:
						// a short file is a file
					case op == "open" || op == "read" || op == "readfile":
						if i := equalStrings(got, m0.answersOf(probes)); i >= 0 {
							t.Failf("unreadable", "%s: %v: contents changed: %q", where, probes[i/2], got[i])
							return
						}
						if d := diffEntries(snapshot(domainOf(o)), m0.Entries, snapOpt{noDirty: true}); d != "" {
							t.Failf("unreadable", "%s: contents changed: %s", where, d)
							return
						}
					default:
						a, b := equalStrings(got, m0.answersOf(probes)), equalStrings(got, both.answersOf(probes))
						if a >= 0 && b >= 0 {
							t.Failf("mixture", "%s: %v: %q, neither before nor after the load", where, probes[b/2], got[b])
							return
						}
					}
					t.Eval()
					// the fault has gone
					f.reset(-1, 0, faultKind{})
					load(name)
					t.Count("recoveries", 1)
					if i := equalStrings(answers(o, probes), both.answersOf(probes)); i >= 0 && !short {
						t.Failf("recovery", "after %s: %v: %q", where, probes[i/2], answers(o, probes)[i])
						return
					}
					if short {
						for key, e := range m1.Entries {
							if key.Ctx == "" && e.Forms[0] != "" {
								if g := domainOf(o).Get(key.ID); g != e.Forms[0] {
									t.Failf("recovery", "after %s: %v: %q", where, key, g)
									return
								}
							}
						}
					}
				}
			}
		}
		if t.Index < 3 {
			t.Sample(fmt.Sprintf("%s %s: %d operations (%s), each failed in %d ways, once and for good", what, name, n, strings.Join(f.ops, " "), len(faultKinds)))
		}
	})

	// a locale looks for and loads a domain
	c.Cases("locale", c.N(40, 1500), par(), func(t *T) {
		r := t.R
		f, vfs, what := newFaultFS(r)
		lang := []string{"xx_YY", "xx", "xx-YY"}[r.Intn(3)]
		b := bare(lang)
		var places []string
		for _, ext := range []string{".po", ".mo"} {
			places = append(places, lang+"/LC_MESSAGES/d"+ext, b+"/LC_MESSAGES/d"+ext, lang+"/d"+ext, b+"/d"+ext)
		}
		base := ""
		if r.Intn(2) == 0 {
			base = "base/dir"
		}
		in := func(p string) string {
			if base == "" {
				return p
			}
			return base + "/" + p
		}
		put := func(p string, v int, lane string) {
			m := verModel(lane, v, nil)
			if strings.HasSuffix(p, ".po") {
				f.files[in(p)] = m.RenderPO(nil)
			} else {
				f.files[in(p)] = m.RenderMO(r, nil)
			}
		}
		have := map[string]bool{}
		for i := 0; i <= r.Intn(3); i++ {
			have[places[r.Intn(len(places))]] = true
		}
		laneOf := func(p string) string { return string(rune('A' + indexOf(places, p))) }
		first := ""
		for _, p := range places {
			if have[p] {
				first = p
				break
			}
		}
		firstLane := laneOf(first)
		fill := func(v int) {
			for _, p := range places {
				if have[p] {
					put(p, v, laneOf(p))
				}
			}
		}
		fill(0)
		put(lang+"/e.po", 0, "Z")
		eModel := verModel("Z", 0, nil)
		fresh := func() *gotext.Locale {
			var l *gotext.Locale
			if base == "" {
				l = gotext.NewLocaleFS(lang, vfs)
			} else {
				l = gotext.NewLocaleFSWithPath(lang, vfs, base)
			}
			l.AddDomain("e")
			l.SetDomain("d")
			return l
		}
		probes := eModel.probes(r, 0)
		eWant := eModel.answersOf(probes)
		check := func(l *gotext.Locale, where string) bool {
			if i := equalStrings(answers(localeCat{l, "e"}, probes), eWant); i >= 0 {
				t.Failf("other-domain", "%s: %v in the other domain: %q", where, probes[i/2], answers(localeCat{l, "e"}, probes)[i])
				return false
			}
			return true
		}
		full := func(l *gotext.Locale, v int, where string) bool {
			m := verModel(firstLane, v, nil)
			ps := m.probes(r, 0)
			if i := equalStrings(answers(localeCat{l, "d"}, ps), m.answersOf(ps)); i >= 0 {
				t.Failf("recovery", "%s: %v: %q, want %q", where, ps[i/2], answers(localeCat{l, "d"}, ps)[i], m.answersOf(ps)[i])
				return false
			}
			return true
		}
		l := fresh()
		f.reset(-1, 0, faultKind{})
		l.AddDomain("d")
		n := f.n
		t.countOps(f)
		t.Logf("%s, language %s, base %q, first %s of %v", what, lang, base, first, have)
		if !full(l, 0, "without faults") || !check(l, "without faults") {
			return
		}
		for _, at := range faultPoints(r, n, 30) {
			for _, k := range faultKinds {
				for _, until := range []int{at + 1, 1 << 30} {
					l := fresh()
					reload := r.Intn(2) == 0
					fill(0)
					if reload {
						f.reset(-1, 0, faultKind{})
						l.AddDomain("d")
					}
					v := 1
					fill(v)
					f.reset(at, until, k)
					query := r.Intn(4) == 0
					if query {
						if g := l.GetActualLanguage("d"); g != lang && g != b && g != "" {
							t.Failf("language", "actual language %q", g)
							return
						}
					}
					l.AddDomain("d")
					hit := append([]string(nil), f.hit...)
					where := fmt.Sprintf("%s from operation %d to %d: %v", k.name, at, until-1, hit)
					t.Count("faults_injected", int64(len(hit)))
					t.Count("locale_loads", 1)
					t.Distinct("locale", what, lang, fmt.Sprint(have, at, until > at+1, reload), k.name)
					if f.open != 0 {
						t.Failf("open-files", "%s: %d files left open", where, f.open)
						return
					}
					f.reset(-1, 0, faultKind{})
					if !check(l, where) {
						return
					}
					// each text is one of the files', or the caller's
					for i := 0; i < verBase; i++ {
						key := verKey(i)
						var s string
						if key.Ctx == "" {
							s = l.GetN(key.ID, key.ID+"s", 5)
						} else {
							s = l.GetNC(key.ID, key.ID+"s", 5, key.Ctx)
						}
						tg, ok := parseTag(s)
						if ok && tg.i == i && tg.v <= v && (tg.v == v || reload) && tg.lane >= "A" && tg.lane <= "H" {
							continue
						}
						if s == key.ID || s == key.ID+"s" || s == verPlural(i) {
							continue
						}
						t.Failf("text", "%s: %v: %q", where, key, s)
						return
					}
					t.Eval()
					l.AddDomain("d")
					t.Count("recoveries", 1)
					if !full(l, v, "after "+where) || !check(l, "after "+where) {
						return
					}
				}
			}
		}
	})

	// package-level functions load what is missing when it is asked for
	c.Cases("package", c.N(30, 800), 1, func(t *T) {
		r := t.R
		f, vfs, what := newFaultFS(r)
		m1, m2 := verModel("A", 0, nil), verModel("B", 0, nil)
		f.files["xx/d.po"], f.files["yy/d.mo"] = m1.RenderPO(nil), m2.RenderMO(r, nil)
		fresh := func() []*gotext.Locale {
			a, b := gotext.NewLocaleFS("xx", vfs), gotext.NewLocaleFS("yy", vfs)
			a.SetDomain("d")
			b.SetDomain("d")
			ls := []*gotext.Locale{a, b}
			gotext.SetLocales(ls)
			return ls
		}
		call := func() string {
			p := PCall{Fn: lookupFns[r.Intn(len(lookupFns))], Dom: "d", ID: "m00", Plural: "m00s", N: 5}
			if p.hasCtx() {
				p.ID, p.Plural, p.Ctx = "m03", "m03s", "c3"
			}
			return pkgLookup(p)
		}
		f.reset(-1, 0, faultKind{})
		fresh()
		call()
		n := f.n
		t.countOps(f)
		for _, at := range faultPoints(r, n, 25) {
			for _, k := range faultKinds {
				for _, until := range []int{at + 1, 1 << 30} {
					ls := fresh()
					f.reset(at, until, k)
					s := call()
					where := fmt.Sprintf("%s: %s from operation %d to %d: %v", what, k.name, at, until-1, f.hit)
					t.Count("faults_injected", int64(len(f.hit)))
					t.Count("package_loads", 1)
					t.Distinct("package", what, fmt.Sprint(n, at, until > at+1), k.name)
					if f.open != 0 {
						t.Failf("open-files", "%s: %d files left open", where, f.open)
						return
					}
					tg, ok := parseTag(s)
					if !(ok && tg.v == 0) && s != "m00" && s != "m00s" && s != "m03" && s != "m03s" {
						t.Failf("text", "%s: %q", where, s)
						return
					}
					touched := false
					for _, h := range f.hit {
						touched = touched || strings.Contains(h, "yy/")
					}
					if !touched && !ok {
						t.Failf("other-language", "%s: %q although the second language can be read", where, s)
						return
					}
					f.reset(-1, 0, faultKind{})
					for _, l := range ls {
						l.AddDomain("d")
					}
					t.Count("recoveries", 1)
					if s := gotext.Get("m00"); s != "<A0|0|0>" {
						t.Failf("recovery", "after %s: %q", where, s)
						return
					}
					if s := ls[1].Get("m00"); s != "<B0|0|0>" {
						t.Failf("recovery", "after %s: second language: %q", where, s)
						return
					}
					t.Eval()
				}
			}
		}
	})

	// a real tree
	type realFault struct {
		name string
		do   func(p string, good []byte) // p is absent before
	}
	outside := "somewhere else entirely"
	faults := []realFault{
		{"missing", func(p string, good []byte) {}},
		{"directory", func(p string, good []byte) { os.MkdirAll(p, 0o755) }},
		{"directory-with-files", func(p string, good []byte) { writeFile(filepath.Join(p, "d.po"), good) }},
		{"dangling-link", func(p string, good []byte) { os.Symlink(p+".gone", p) }},
		{"loop", func(p string, good []byte) { os.Symlink(filepath.Base(p), p) }},
		{"link-to-directory", func(p string, good []byte) { os.Symlink(".", p) }},
		{"empty", func(p string, good []byte) { writeFile(p, nil) }},
		{"short", func(p string, good []byte) { writeFile(p, good[:len(good)/3]) }},
		{"garbage", func(p string, good []byte) { writeFile(p, []byte(outside+"\x00\xff\n\n")) }},
	}
	upper := []realFault{
		{"file-in-place-of-folder", func(p string, good []byte) { writeFile(p, []byte("x")) }},
		{"folder-missing", func(p string, good []byte) {}},
		{"folder-dangling-link", func(p string, good []byte) { os.Symlink("gone", p) }},
		{"folder-loop", func(p string, good []byte) { os.Symlink(filepath.Base(p), p) }},
	}
	total := (len(faults) + len(upper)) * 2 * 2
	c.Cases("real", total*c.N(6, 60), 1, func(t *T) {
		r := t.R
		i := int(t.Index) % total
		ext := []string{".po", ".mo"}[i%2]
		pkg := i/2%2 == 0
		fi := i / 4
		root := filepath.Join(t.Scratch, fmt.Sprintf("real-%d", t.Index))
		defer os.RemoveAll(root)
		sub := []string{"", "/LC_MESSAGES"}[r.Intn(2)]
		render := func(m *Model, ext string) []byte {
			if ext == ".po" {
				return m.RenderPO(nil)
			}
			return m.RenderMO(r, nil)
		}
		good := render(verModel("A", 0, nil), ext)
		second, other := verModel("B", 0, nil), verModel("C", 0, nil)
		target := filepath.Join(root, "xx"+sub, "d"+ext)
		place := func() {
			os.RemoveAll(filepath.Join(root, "xx"))
			os.RemoveAll(filepath.Join(root, "yy"))
			writeFile(filepath.Join(root, "yy", "d.po"), second.RenderPO(nil))
			writeFile(filepath.Join(root, "yy", "e.mo"), other.RenderMO(nil, nil))
			os.MkdirAll(filepath.Join(root, "xx"+sub), 0o755)
		}
		place()
		writeFile(target, good)
		name := ""
		damage := func() {
			if fi < len(faults) {
				name = faults[fi].name
				os.RemoveAll(target)
				faults[fi].do(target, good)
			} else {
				name = upper[fi-len(faults)].name
				p := filepath.Join(root, "xx")
				if sub != "" && r.Intn(2) == 0 {
					p = filepath.Join(root, "xx"+sub)
				}
				os.RemoveAll(p)
				upper[fi-len(faults)].do(p, good)
			}
		}
		texts := func(s, id, pl string, i int, lanes string) bool {
			tg, ok := parseTag(s)
			return s == id || s == pl || (ok && tg.i == i && strings.Contains(lanes, tg.lane))
		}
		t.Count("real_tree_loads", 1)
		repair := func() { place(); writeFile(target, good) }
		was := r.Intn(2) == 0 // loaded before the fault
		fds := countFDs()
		if !pkg {
			l := gotext.NewLocale(root, "xx")
			l.SetDomain("d")
			if was {
				l.AddDomain("d")
			}
			damage()
			t.Logf("%s %s, loaded before: %v", name, ext, was)
			for j := 0; j < 3; j++ {
				l.AddDomain("d")
				l.GetActualLanguage("d")
				l.AddDomain(strings.Repeat("long", 2000))
				l.AddDomain("a\x00b")
			}
			for i := 0; i < verBase; i++ {
				k := verKey(i)
				if s := l.GetNDC("d", k.ID, k.ID+"s", 5, k.Ctx); k.Ctx != "" && !texts(s, k.ID, k.ID+"s", i, "A") && s != verPlural(i) {
					t.Failf("text", "%s: %v: %q", name, k, s)
					return
				}
			}
			repair()
			l.AddDomain("d")
			if s := l.Get("m00"); s != "<A0|0|0>" {
				t.Failf("recovery", "after %s: %q", name, s)
				return
			}
			// an object with contents
			po := gotext.NewPo()
			po.Set("kept", "KEPT")
			mo := gotext.NewMo()
			mo.GetDomain().Set("kept", "KEPT")
			damage()
			po.ParseFile(target)
			mo.ParseFile(target)
			if po.Get("kept") != "KEPT" || mo.Get("kept") != "KEPT" {
				t.Failf("unreadable", "%s: contents changed", name)
				return
			}
			repair()
			if ext == ".po" {
				po.ParseFile(target)
				if s := po.Get("m00"); s != "<A0|0|0>" {
					t.Failf("recovery", "after %s: %q", name, s)
					return
				}
			} else {
				mo.ParseFile(target)
				if s := mo.Get("m00"); s != "<A0|0|0>" {
					t.Failf("recovery", "after %s: %q", name, s)
					return
				}
			}
		} else {
			if was {
				gotext.Configure(root, "xx:yy", "d")
				gotext.Get("m00")
			}
			damage()
			t.Logf("package: %s %s, loaded before: %v", name, ext, was)
			gotext.Configure(root, "xx:yy", "d")
			for i := 0; i < verBase; i++ {
				k := verKey(i)
				if k.Ctx == "" {
					continue
				}
				// the first language can't be read, the second can
				want := second.get(k.Ctx, k.ID)
				s := gotext.GetDC("d", k.ID, k.Ctx)
				if s != want && !(name == "short" && texts(s, "", "", i, "A")) {
					t.Failf("other-language", "%s: %v: %q, want %q", name, k, s, want)
					return
				}
				if s := gotext.GetDC("e", k.ID, k.Ctx); s != other.get(k.Ctx, k.ID) {
					t.Failf("other-domain", "%s: %v: %q", name, k, s)
					return
				}
			}
			gotext.GetD(strings.Repeat("long", 2000), "x")
			repair()
			[]func(){func() { gotext.SetDomain("d") }, func() { gotext.SetLibrary(root) }, func() { gotext.SetLanguage("xx:yy") }}[r.Intn(3)]()
			if s := gotext.Get("m00"); s != "<A0|0|0>" {
				t.Failf("recovery", "after %s: %q", name, s)
				return
			}
		}
		t.Count("recoveries", 1)
		if n := countFDs(); n > fds {
			t.Failf("open-files", "%s: %d files left open", name, n-fds)
			return
		}
		t.Distinct("real", name, ext, sub, fmt.Sprint(pkg, was))
		t.Eval()
	})
}

func countFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(es)
}
