package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/fstest"
	"time"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C17", Race: true, Rule: "one goroutine loads numbered versions of a catalogue (other texts, headers, plural rule, one entry more each) into one PO, MO or domain object by Parse, ParseFile or UnmarshalBinary while readers take snapshots, exports and lookups; everything in one answer has to belong to one version, and to one between the last load finished before the call and the last one begun before its end; with two loaders: to one version; distinct by the sequence of versions a reader saw, and of the loads under way meanwhile",
		Need: []string{"loads", "snapshots", "exports", "lookups", "answers_during_a_load", "version_changes_seen"},
		Run:  runC17})
	register(&Check{ID: "C18", Race: true, Rule: "a locale reloads a domain (real directories, slow virtual file systems, added translators) or the package reloads (domain, library, language, everything, locales set again; one or several languages) with numbered versions of the files while readers make lookups and queries; every answer has to be a text of a version between the last reload finished before the call and the last one begun before its end, never the caller's text; distinct by the sequence of versions a reader saw, and of the loads under way meanwhile",
		Need:   []string{"reloads", "package_reloads", "lookups", "answers_during_a_reload", "version_changes_seen", "lookups_on_package_locales", "late_lookups"},
		Assume: []string{"files are replaced by renaming", "after the package switched the default domain, lookups in other domains may be answered from an earlier loaded version of these"},
		Run:    runC18})
}

// ------------------------------------------------------------ numbered versions

const verBase = 40

// verForm is the plural form that the rule of version v gives.
func verForm(v, n int) int {
	i := 2
	if n == 1 {
		i = 0
	} else if n == 2 {
		i = 1
	}
	return (i + v) % 3
}

func verRule(v int) string {
	return fmt.Sprintf("n==1 ? %d : n==2 ? %d : %d", verForm(v, 1), verForm(v, 2), verForm(v, 0))
}

func verKey(i int) Key {
	k := Key{"", fmt.Sprintf("m%02d", i)}
	if i%2 == 1 {
		k.Ctx = "c" + fmt.Sprint(i%4)
	}
	return k
}

func verPlural(i int) string {
	if i%3 == 0 {
		return fmt.Sprintf("m%02d (plural)", i)
	}
	return ""
}

// partial messages: 6 and 9 have their form 0 only.
func verPartial(i int) bool { return i == 6 || i == 9 }

// verModel is version v of a loader's catalogue.
func verModel(lane string, v int, has func(i int) bool) *Model {
	return verModelOf(lane, v, has, verBase)
}

// verModelOf is verModel with another number of entries.
func verModelOf(lane string, v int, has func(i int) bool, base int) *Model {
	m := newModel()
	m.HasHeader = true
	m.NForms = 3
	m.Rule = ParseC(verRule(v))
	m.Headers = []KV{{"Language", fmt.Sprintf("l%s%d", lane, v)}, {"Plural-Forms", "nplurals=3; plural=" + verRule(v) + ";"}, {"X-Version", fmt.Sprintf("%s%d", lane, v)}}
	add := func(k Key, i int) {
		e := &Entry{Ctx: k.Ctx, ID: k.ID, Forms: map[int]string{}, Refs: []string{fmt.Sprintf("%s%d.go:%d", lane, v, i+1)}}
		if i < base {
			e.Plural = verPlural(i)
		}
		for f := 0; f < 3; f++ {
			if f == 0 || e.Plural != "" {
				e.Forms[f] = fmt.Sprintf("<%s%d|%d|%d>", lane, v, i, f)
			}
			if f > 0 && e.Plural != "" && verPartial(i) {
				e.Forms[f] = ""
			}
		}
		m.Entries[k] = e
	}
	for i := 0; i < base; i++ {
		if has == nil || has(i) {
			add(verKey(i), i)
		}
	}
	add(Key{"", fmt.Sprintf("extra %s%d", lane, v)}, base)
	add(Key{"x", fmt.Sprintf("extra %s%d", lane, v)}, base)
	return m
}

type vtag struct {
	lane    string
	v, i, f int
}

func parseTag(s string) (t vtag, ok bool) {
	if len(s) < 3 || s[0] != '<' {
		return
	}
	t.lane = s[1:2]
	var n int
	n, _ = fmt.Sscanf(s[2:], "%d|%d|%d>", &t.v, &t.i, &t.f)
	return t, n == 3 && s == fmt.Sprintf("<%s%d|%d|%d>", t.lane, t.v, t.i, t.f)
}

// oneVersion tells which version all the entries are of.
func oneVersion(es map[Key]*Entry, plain, ctx bool, accumulates bool, base int) (lane string, v int, bad string) {
	v = -1
	n := 0
	extra := map[string]int{}
	for k, e := range es {
		if k.ID == "" {
			continue
		}
		var l string
		var x int
		if c, _ := fmt.Sscanf(k.ID, "extra %1s%d", &l, &x); c == 2 {
			extra[k.Ctx+"/"+l]++
			if accumulates {
				continue
			}
			if lane != "" && (l != lane || x != v) {
				return "", 0, fmt.Sprintf("%q beside entries of version %s%d", k.ID, lane, v)
			}
			continue
		}
		n++
		for f, s := range e.Forms {
			t, ok := parseTag(s)
			if !ok {
				if s == "" && f > 0 {
					continue
				}
				return "", 0, fmt.Sprintf("%q has the text %q", k.ID, s)
			}
			if lane == "" {
				lane, v = t.lane, t.v
			}
			if t.lane != lane || t.v != v || t.f != f || verKey(t.i) != k {
				return "", 0, fmt.Sprintf("%v has %q beside entries of version %s%d", k, s, lane, v)
			}
		}
		for _, ref := range e.Refs {
			if !strings.HasPrefix(ref, fmt.Sprintf("%s%d.go:", lane, v)) {
				return "", 0, fmt.Sprintf("%v has the reference %q beside entries of version %s%d", k, ref, lane, v)
			}
		}
	}
	want := 0
	if plain {
		want += base / 2
	}
	if ctx {
		want += base / 2
	}
	if n != want {
		return "", 0, fmt.Sprintf("%d of %d entries of version %s%d", n, want, lane, v)
	}
	// one extra entry for each load so far, the last one being the one of this version
	wantExtra := 1
	if accumulates {
		wantExtra = v + 1
	}
	for _, c := range []string{"", "x"} {
		if (c == "" && !plain) || (c == "x" && !ctx) {
			continue
		}
		if extra[c+"/"+lane] != wantExtra {
			return "", 0, fmt.Sprintf("%d entries added by versions up to %s%d, want %d", extra[c+"/"+lane], lane, v, wantExtra)
		}
		if es[Key{c, fmt.Sprintf("extra %s%d", lane, v)}] == nil {
			return "", 0, fmt.Sprintf("the entry added by version %s%d is missing", lane, v)
		}
	}
	return lane, v, ""
}

func trEntries(ctx string, all map[string]*gotext.Translation, out map[Key]*Entry) map[Key]*Entry {
	if out == nil {
		out = map[Key]*Entry{}
	}
	for id, tr := range all {
		out[Key{ctx, id}] = &Entry{Ctx: ctx, ID: tr.ID, Plural: tr.PluralID, Forms: tr.Trs, Refs: tr.Refs}
	}
	return out
}

// reader is one reading goroutine's notes.
type reader struct {
	bad     string
	seen    []string // versions in order
	counts  map[string]int64
	during  int64
	changes int64
	last    string
	lastAt  string
}

// saw notes an answer of a version, made while the loads lo to hi were under way.
func (r *reader) saw(lane string, v, lo, hi int) {
	s := fmt.Sprintf("%s%d", lane, v)
	if s != r.last {
		if r.last != "" {
			r.changes++
		}
		r.last = s
	}
	if s = fmt.Sprintf("%s(%d-%d)", s, lo, hi); s != r.lastAt {
		r.lastAt = s
		r.seen = append(r.seen, s)
	}
}

// versioned runs loader and readers and judges the readers' notes.
func versioned(t *T, during string, load func(), readers int, read func(rd *reader, r *rand.Rand)) {
	var stop atomic.Bool
	var wg sync.WaitGroup
	rds := make([]*reader, readers)
	for i := range rds {
		rds[i] = &reader{counts: map[string]int64{}}
		r := rand.New(rand.NewSource(t.R.Int63()))
		wg.Add(1)
		go func(rd *reader) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil && rd.bad == "" {
					rd.bad = fmt.Sprintf("panic: %v", e)
				}
			}()
			for last := false; !last && rd.bad == ""; {
				last = stop.Load() // one more time after the end
				read(rd, r)
			}
		}(rds[i])
	}
	func() {
		defer stop.Store(true)
		load()
	}()
	wg.Wait()
	for _, rd := range rds {
		for k, n := range rd.counts {
			t.Count(k, n)
		}
		t.Count(during, rd.during)
		t.Count("version_changes_seen", rd.changes)
		t.Distinct(t.Group, strings.Join(rd.seen, " "))
		if rd.bad != "" {
			t.Logf("versions seen before: %s", strings.Join(rd.seen, " "))
			t.Failf("version", "%s", rd.bad)
		}
	}
	t.Eval()
}

func runC17(c *C) {
	kinds := []string{"po", "pofile", "mo", "mofile", "pobinary", "dobinary", "mobinary"}
	c.Cases("one", c.N(100, 2500), 2, func(t *T) {
		kind := kinds[int(t.Index)%len(kinds)]
		loads := 8
		base := []int{verBase, verBase, 150, 700}[int(t.Index)/len(kinds)%4]
		var o catalog
		var dom *gotext.Domain
		var parse func(b []byte)
		var parseFile func(p string)
		var un func(b []byte) error
		var text func() ([]byte, error)
		var bin func() ([]byte, error)
		var files [][]byte
		mo := strings.HasPrefix(kind, "mo")
		if mo {
			x := gotext.NewMo()
			o, dom, parse, parseFile, un, text, bin = x, x.GetDomain(), x.Parse, x.ParseFile, x.UnmarshalBinary, x.GetDomain().MarshalText, x.MarshalBinary
		} else {
			x := gotext.NewPo()
			o, dom, parse, parseFile, un, text, bin = x, x.GetDomain(), x.Parse, x.ParseFile, x.UnmarshalBinary, x.MarshalText, x.MarshalBinary
			if kind == "dobinary" {
				d := gotext.NewDomain()
				o, dom, un, text, bin = d, d, d.UnmarshalBinary, d.MarshalText, d.MarshalBinary
			}
		}
		for v := 0; v < loads; v++ {
			m := verModelOf("A", v, nil, base)
			if mo {
				files = append(files, m.RenderMO(t.R, nil))
			} else {
				files = append(files, m.RenderPO(nil))
			}
		}
		var bins [][]byte
		if strings.HasSuffix(kind, "binary") {
			po := gotext.NewPo()
			mob := gotext.NewMo()
			for v := 0; v < loads; v++ {
				var b []byte
				switch kind {
				case "pobinary":
					po.Parse(files[v])
					b, _ = po.MarshalBinary()
				case "dobinary":
					po.Parse(files[v])
					b, _ = po.GetDomain().MarshalBinary()
				default:
					mob.Parse(files[v])
					b, _ = mob.MarshalBinary()
				}
				bins = append(bins, b)
			}
		}
		path := filepath.Join(t.Scratch, fmt.Sprintf("ver-%s-%d", t.Group, t.Index))
		put := func(v int) {
			switch {
			case bins != nil:
				if err := un(bins[v]); err != nil {
					t.Failf("load", "%v", err)
				}
			case strings.HasSuffix(kind, "file"):
				writeFile(path, files[v])
				parseFile(path)
			default:
				parse(files[v])
			}
		}
		defer os.Remove(path)
		put(0)
		var begun, done atomic.Int64
		t.Logf("%s", kind)
		pause := t.R.Intn(3)
		versioned(t, "answers_during_a_load", func() {
			for v := 1; v < loads; v++ {
				begun.Store(int64(v))
				put(v)
				done.Store(int64(v))
				t.Count("loads", 1)
				t.Progress()
				for i := 0; i < pause*200; i++ {
					runtime.Gosched()
				}
			}
		}, 3, func(rd *reader, r *rand.Rand) {
			lo := int(done.Load())
			what, v, maybe := "", -1, func(v int) bool { return true }
			fail := func(s string) { rd.bad = what + ": " + s }
			entries := func(es map[Key]*Entry, plain, ctx bool) bool {
				_, x, bad := oneVersion(es, plain, ctx, true, base)
				if bad != "" {
					fail(bad)
					return false
				}
				v = x
				return true
			}
			hdr := func(get func(k string) string) bool {
				for _, kv := range verModel("A", v, func(int) bool { return false }).Headers {
					if g := get(kv.K); g != kv.V {
						fail(fmt.Sprintf("header %s: %q beside entries of version A%d", kv.K, g, v))
						return false
					}
				}
				return true
			}
			var text1 string
			i := r.Intn(base)
			k := verKey(i)
			n := []int{1, 2, 5}[r.Intn(3)]
			pl := verPlural(i)
			switch op := r.Intn(14); op {
			case 0:
				what = "GetTranslations"
				rd.counts["snapshots"]++
				if !entries(trEntries("", dom.GetTranslations(), nil), true, false) {
					return
				}
			case 1:
				what = "GetCtxTranslations"
				rd.counts["snapshots"]++
				es := map[Key]*Entry{}
				for c, m := range dom.GetCtxTranslations() {
					trEntries(c, m, es)
				}
				if !entries(es, false, true) {
					return
				}
			case 2:
				what = "MarshalText"
				rd.counts["exports"]++
				b, err := text()
				var items []*POItem
				if err == nil {
					items, err = strictPO(b)
				}
				if err != nil {
					fail(err.Error())
					return
				}
				es, head := poEntries(items)
				if head == nil {
					fail("export without header")
					return
				}
				if !entries(es, true, true) || !hdr(func(k string) string {
					for _, l := range strings.Split(head.Forms[0], "\n") {
						if strings.HasPrefix(l, k+": ") {
							return l[len(k)+2:]
						}
					}
					return ""
				}) {
					return
				}
			case 3:
				what = "MarshalBinary"
				rd.counts["exports"]++
				b, err := bin()
				d := gotext.NewDomain()
				if err == nil {
					err = d.UnmarshalBinary(b)
				}
				if err != nil {
					fail(err.Error())
					return
				}
				es := trEntries("", d.GetTranslations(), nil)
				for c, m := range d.GetCtxTranslations() {
					trEntries(c, m, es)
				}
				if !entries(es, true, true) || !hdr(func(k string) string { return d.Headers.Get(k) }) {
					return
				}
				if g := d.PluralForms; g != "nplurals=3; plural="+verRule(v)+";" {
					fail(fmt.Sprintf("plural forms %q beside entries of version A%d", g, v))
					return
				}
				t, ok := parseTag(d.GetN("m00", "x", n))
				if !ok || t.f != verForm(v, n) {
					fail(fmt.Sprintf("restored version A%d selects form %d for %d", v, t.f, n))
					return
				}
			case 4, 5, 6, 7:
				what = "lookup"
				rd.counts["lookups"]++
				if k.Ctx == "" {
					text1 = []func() string{func() string { return o.Get(k.ID) }, func() string { return string(o.Append(nil, k.ID)) }}[op%2]()
				} else {
					text1 = []func() string{func() string { return o.GetC(k.ID, k.Ctx) }, func() string { return string(o.AppendC(nil, k.ID, k.Ctx)) }}[op%2]()
				}
				t, ok := parseTag(text1)
				if !ok || t.i != i || t.f != 0 {
					fail(fmt.Sprintf("%v: %q", k, text1))
					return
				}
				v = t.v
			case 8, 9, 10, 11:
				what = "plural lookup"
				if pl == "" {
					return
				}
				rd.counts["lookups"]++
				if k.Ctx == "" {
					text1 = []func() string{func() string { return o.GetN(k.ID, pl, n) }, func() string { return string(o.AppendN(nil, k.ID, pl, n)) }}[op%2]()
				} else {
					text1 = []func() string{func() string { return o.GetNC(k.ID, pl, n, k.Ctx) }, func() string { return string(o.AppendNC(nil, k.ID, pl, n, k.Ctx)) }}[op%2]()
				}
				if verPartial(i) && text1 == pl {
					maybe = func(v int) bool { return verForm(v, n) != 0 }
					break
				}
				t, ok := parseTag(text1)
				if !ok || t.i != i {
					fail(fmt.Sprintf("%v: %q", k, text1))
					return
				}
				v = t.v
				if t.f != verForm(v, n) {
					fail(fmt.Sprintf("%v for %d: %q, the rule of this version gives form %d", k, n, text1, verForm(v, n)))
					return
				}
			case 12:
				what = "query"
				rd.counts["lookups"]++
				var got, gotN bool
				if k.Ctx == "" {
					got, gotN = o.IsTranslated(k.ID), o.IsTranslatedN(k.ID, n)
				} else {
					got, gotN = o.IsTranslatedC(k.ID, k.Ctx), o.IsTranslatedNC(k.ID, n, k.Ctx)
				}
				if !got {
					fail(fmt.Sprintf("%v not translated", k))
					return
				}
				text1 = fmt.Sprint(gotN)
				if pl != "" && !verPartial(i) {
					if !gotN {
						fail(fmt.Sprintf("%v not translated for %d", k, n))
						return
					}
				} else {
					maybe = func(v int) bool { return gotN == (verForm(v, n) == 0) }
				}
			default:
				what = "lookup of an absent message"
				rd.counts["lookups"]++
				text1 = o.GetN("absent", "absents", n)
				if r.Intn(2) == 0 {
					text1 = o.GetNC("absent", "absents", n, "c1")
				}
				maybe = func(v int) bool { return (text1 == "absent") == (verForm(v, n) == 0) }
			}
			hi := int(begun.Load())
			if lo < hi {
				rd.during++
			}
			if v >= 0 {
				if v < lo || v > hi {
					fail(fmt.Sprintf("of version A%d, version %d had been loaded before the call and %d begun before its end", v, lo, hi))
					return
				}
				rd.saw("A", v, lo, hi)
				return
			}
			for x := lo; x <= hi; x++ {
				if maybe(x) {
					return
				}
			}
			fail(fmt.Sprintf("%v for %d: %q fits none of the versions A%d..A%d", k, n, text1, lo, hi))
		})
		if t.Index < 2 {
			t.Sample(fmt.Sprintf("%s: versions A0..A%d with %d entries each, 3 readers", kind, loads-1, base))
		}
	})

	// two loaders: whatever the order, one version at a time
	c.Cases("two", c.N(50, 1200), 2, func(t *T) {
		mo := t.Index%2 == 1
		base := []int{verBase, verBase, 160}[int(t.Index)/2%3]
		var dom *gotext.Domain
		var parse func(b []byte)
		if mo {
			x := gotext.NewMo()
			dom, parse = x.GetDomain(), x.Parse
		} else {
			x := gotext.NewPo()
			dom, parse = x.GetDomain(), x.Parse
		}
		const loads = 6
		files := map[string][][]byte{}
		for _, lane := range []string{"A", "B"} {
			for v := 0; v < loads; v++ {
				m := verModelOf(lane, v, nil, base)
				if mo {
					files[lane] = append(files[lane], m.RenderMO(t.R, nil))
				} else {
					files[lane] = append(files[lane], m.RenderPO(nil))
				}
			}
		}
		parse(files["A"][0])
		parse(files["B"][0])
		versioned(t, "answers_during_a_load", func() {
			var wg sync.WaitGroup
			for _, lane := range []string{"A", "B"} {
				wg.Add(1)
				go func(fs [][]byte) {
					defer wg.Done()
					for v := 1; v < loads; v++ {
						parse(fs[v])
						t.Count("loads", 1)
					}
				}(files[lane])
			}
			wg.Wait()
		}, 3, func(rd *reader, r *rand.Rand) {
			var es map[Key]*Entry
			plain, ctx := true, true
			var head string
			switch r.Intn(3) {
			case 0:
				es = trEntries("", dom.GetTranslations(), nil)
				ctx = false
				head = es[Key{"", ""}].Forms[0]
				rd.counts["snapshots"]++
			case 1:
				b, err := dom.MarshalText()
				var items []*POItem
				if err == nil {
					items, err = strictPO(b)
				}
				if err != nil {
					rd.bad = err.Error()
					return
				}
				var h *POItem
				es, h = poEntries(items)
				if h == nil {
					rd.bad = "export without header"
					return
				}
				head = h.Forms[0]
				rd.counts["exports"]++
			case 2:
				b, err := dom.MarshalBinary()
				d := gotext.NewDomain()
				if err == nil {
					err = d.UnmarshalBinary(b)
				}
				if err != nil {
					rd.bad = err.Error()
					return
				}
				es = trEntries("", d.GetTranslations(), nil)
				for c, m := range d.GetCtxTranslations() {
					trEntries(c, m, es)
				}
				head = "\nX-Version: " + d.Headers.Get("X-Version") + "\n"
				rd.counts["exports"]++
			}
			lane, v, bad := oneVersion(es, plain, ctx, true, base)
			if bad != "" {
				rd.bad = bad
				return
			}
			if !strings.Contains("\n"+head+"\n", fmt.Sprintf("\nX-Version: %s%d\n", lane, v)) {
				rd.bad = fmt.Sprintf("header %q beside entries of version %s%d", head, lane, v)
				return
			}
			rd.saw(lane, v, 0, 0)
		})
	})
}

// ------------------------------------------------------------ C18

// slowFS serves files slowly.
type slowFS struct {
	files sync.Map // name -> []byte
	slow  int
}

type slowFile struct {
	name string
	r    *bytes.Reader
	f    *slowFS
}

type slowInfo struct {
	name string
	n    int64
}

func (i slowInfo) Name() string       { return i.name }
func (i slowInfo) Size() int64        { return i.n }
func (i slowInfo) Mode() fs.FileMode  { return 0o444 }
func (i slowInfo) ModTime() time.Time { return time.Time{} }
func (i slowInfo) IsDir() bool        { return false }
func (i slowInfo) Sys() interface{}   { return nil }

func (f *slowFS) rest() {
	for i := 0; i < f.slow; i++ {
		runtime.Gosched()
	}
}

func (f *slowFS) Open(name string) (fs.File, error) {
	f.rest()
	b, ok := f.files.Load(name)
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return &slowFile{name, bytes.NewReader(b.([]byte)), f}, nil
}
func (s *slowFile) Stat() (fs.FileInfo, error) { return slowInfo{s.name, s.r.Size()}, nil }
func (s *slowFile) Close() error               { s.f.rest(); return nil }
func (s *slowFile) Read(p []byte) (int, error) {
	s.f.rest()
	if len(p) > 300 {
		p = p[:300]
	}
	n, err := s.r.Read(p)
	if err == io.EOF {
		return n, io.EOF
	}
	return n, err
}

func replaceFile(p string, b []byte) {
	writeFile(p+".new", b)
	if err := os.Rename(p+".new", p); err != nil {
		panic(err)
	}
}

// verLookups asks for message i by every kind of lookup. It gives the version or what is wrong.
func verRead(rd *reader, r *rand.Rand, dom string, queries bool, look func(p PCall) string, ask func(p PCall) bool) (what string, v int) {
	var p PCall
	i := r.Intn(verBase)
	for verPartial(i) {
		i = r.Intn(verBase)
	}
	k := verKey(i)
	if queries && r.Intn(4) == 0 {
		p.Fn = queryFns[r.Intn(len(queryFns))]
	} else {
		p.Fn = lookupFns[r.Intn(len(lookupFns))]
	}
	for p.hasCtx() != (k.Ctx != "") || (p.hasN() && verPlural(i) == "") {
		i = r.Intn(verBase)
		for verPartial(i) {
			i = r.Intn(verBase)
		}
		k = verKey(i)
	}
	p.Dom, p.ID, p.Ctx, p.Plural, p.N = dom, k.ID, k.Ctx, verPlural(i), []int{1, 2, 5}[r.Intn(3)]
	if p.Fn[0] == 'I' {
		rd.counts["queries"]++
		if !ask(p) {
			rd.bad = fmt.Sprintf("%v: not translated", p)
		}
		return p.String(), -1
	}
	rd.counts["lookups"]++
	s := look(p)
	t, ok := parseTag(s)
	f := 0
	if p.hasN() {
		f = verForm(t.v, p.N)
	}
	if !ok || t.i != i || t.f != f {
		rd.bad = fmt.Sprintf("%v: %q", p, s)
		return p.String(), -1
	}
	return p.String(), t.v
}

// lateFS is a storage that takes its time.
type lateFS struct {
	fstest.MapFS
	wait time.Duration
}

func (f lateFS) Open(name string) (fs.File, error) { time.Sleep(f.wait); return f.MapFS.Open(name) }
func (f lateFS) Stat(name string) (fs.FileInfo, error) {
	time.Sleep(f.wait / 8)
	return f.MapFS.Stat(name)
}
func (f lateFS) ReadFile(name string) ([]byte, error) {
	time.Sleep(f.wait)
	return f.MapFS.ReadFile(name)
}

// lateLoads sets locales whose domains are not loaded yet and come from a slow storage.
func lateLoads(t *T) {
	r := t.R
	wait := []time.Duration{0, 2, 10, 30, 60, 120}[int(t.Index)%6] * time.Millisecond
	files := fstest.MapFS{}
	text := func(dom string, ctx bool) string { return fmt.Sprintf("%s %v %d", dom, ctx, t.Index) }
	for i, dom := range []string{"d", "e", "f", "g"} {
		m := newModel()
		for _, ctx := range []string{"", "c"} {
			m.Entries[Key{ctx, "a"}] = &Entry{Ctx: ctx, ID: "a", Plural: "as", Forms: map[int]string{0: text(dom, ctx != ""), 1: text(dom, ctx != "") + " many"}}
		}
		if (i+int(t.Index))%2 == 0 {
			files["xx/LC_MESSAGES/"+dom+".mo"] = &fstest.MapFile{Data: m.RenderMO(r, nil)}
		} else {
			files["xx/"+dom+".po"] = &fstest.MapFile{Data: m.RenderPO(r)}
		}
	}
	l := gotext.NewLocaleFS("xx", lateFS{files, wait})
	l.AddDomain("d")
	gotext.SetLocales([]*gotext.Locale{l})
	t.Count("package_reloads", 1)
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for i := 0; i < 6; i++ {
				fn := []string{"GetD", "GetND", "GetDC", "GetNDC", "IsTranslatedD", "IsTranslatedND", "IsTranslatedDC", "IsTranslatedNDC"}[r.Intn(8)]
				p := PCall{Fn: fn, Dom: []string{"e", "f", "g", "d"}[r.Intn(4)], ID: "a", Plural: "as", N: 1 + r.Intn(2), Ctx: "c"}
				if strings.HasPrefix(fn, "Is") {
					if !pkgQuery(p) {
						bad <- fmt.Sprintf("%v: false right after the locales were set, with a storage that takes %v", p, wait)
					}
					continue
				}
				want := text(p.Dom, p.hasCtx())
				if p.hasN() && p.N != 1 {
					want += " many"
				}
				if got := pkgLookup(p); got != want {
					bad <- fmt.Sprintf("%v: got %q, want %q, right after the locales were set, with a storage that takes %v", p, got, want, wait)
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	t.Count("late_lookups", 24)
	select {
	case b := <-bad:
		t.Failf("late", "%s", b)
	default:
	}
	t.Eval()
	t.Distinct(fmt.Sprint(wait, t.Index))
}

func runC18(c *C) {
	c.Cases("late", c.N(24, 300), 1, lateLoads)
	c.Cases("locale", c.N(80, 2000), 2, func(t *T) {
		kind := []string{"dir-po", "dir-mo", "fs-po", "fs-mo", "translator", "restore"}[int(t.Index)%6]
		loads := 8
		base := []int{verBase, verBase, 300}[int(t.Index)/6%3]
		mo := strings.HasSuffix(kind, "mo")
		ext := "po"
		if mo {
			ext = "mo"
		}
		render := func(m *Model) []byte {
			if mo {
				return m.RenderMO(t.R, nil)
			}
			return m.RenderPO(nil)
		}
		root := filepath.Join(t.Scratch, fmt.Sprintf("rl-%d", t.Index))
		defer os.RemoveAll(root)
		name := []string{"xx/LC_MESSAGES/d.", "xx_YY/d.", "xx/d.", "xx_YY/LC_MESSAGES/d."}[t.R.Intn(4)] + ext
		other := verModel("B", 0, nil).RenderPO(nil)
		slow := &slowFS{slow: []int{0, 3, 30}[t.R.Intn(3)]}
		var l *gotext.Locale
		var place func(b []byte)
		if strings.HasPrefix(kind, "fs") {
			slow.files.Store("xx/e.po", other)
			l = gotext.NewLocaleFS("xx_YY", slow)
			place = func(b []byte) { slow.files.Store(name, b) }
		} else {
			writeFile(filepath.Join(root, "xx/e.po"), other)
			l = gotext.NewLocale(root, "xx_YY")
			place = func(b []byte) { replaceFile(filepath.Join(root, name), b) }
		}
		var files [][]byte
		var bins [][]byte
		for v := 0; v < loads; v++ {
			files = append(files, render(verModelOf("A", v, nil, base)))
			if kind == "restore" {
				x := gotext.NewLocale("", "xx_YY")
				po := gotext.NewPo()
				po.Parse(files[v])
				x.AddTranslator("d", po)
				po2 := gotext.NewPo()
				po2.Parse(other)
				x.AddTranslator("e", po2)
				b, err := x.MarshalBinary()
				if err != nil {
					t.Failf("restore", "%v", err)
					return
				}
				bins = append(bins, b)
			}
		}
		load := func(v int) {
			switch kind {
			case "translator":
				po := gotext.NewPo()
				po.Parse(files[v])
				l.AddTranslator("d", po)
			case "restore":
				if err := l.UnmarshalBinary(bins[v]); err != nil {
					t.Failf("restore", "%v", err)
				}
			default:
				place(files[v])
				l.AddDomain("d")
			}
		}
		load(0)
		l.AddDomain("e")
		if d := l.GetDomain(); d != "d" {
			t.Failf("domain", "default domain %q", d)
			return
		}
		t.Logf("%s %s", kind, name)
		var begun, done atomic.Int64
		versioned(t, "answers_during_a_reload", func() {
			for v := 1; v < loads; v++ {
				begun.Store(int64(v))
				load(v)
				done.Store(int64(v))
				t.Count("reloads", 1)
				t.Progress()
				for i := 0; i < 100; i++ {
					runtime.Gosched()
				}
			}
		}, 3, func(rd *reader, r *rand.Rand) {
			lo := int(done.Load())
			var what string
			var v int
			switch r.Intn(12) {
			case 0:
				// the other domain stays as it is
				rd.counts["lookups"]++
				if s := l.GetD("e", "m00"); s != "<B0|0|0>" {
					rd.bad = fmt.Sprintf("%q from a domain that is not reloaded", s)
				}
				return
			case 1:
				what = "GetTranslations"
				rd.counts["snapshots"]++
				l.GetTranslations()
				return
			default:
				what, v = verRead(rd, r, "d", true, func(p PCall) string { return locLookup(l, p) }, func(p PCall) bool { return locQuery(l, p) })
			}
			hi := int(begun.Load())
			if lo < hi {
				rd.during++
			}
			if rd.bad != "" || v < 0 {
				return
			}
			if v < lo || v > hi {
				rd.bad = fmt.Sprintf("%s: of version A%d, version %d had been loaded before the call and %d begun before its end", what, v, lo, hi)
				return
			}
			rd.saw("A", v, lo, hi)
		})
	})

	kinds := []string{"SetDomain", "SetLibrary", "SetLanguage", "Configure", "other-library", "other-language", "other-domain", "other-all", "SetLocales", "languages", "mixed"}
	c.Cases("package", c.N(60, 1500), 1, func(t *T) {
		kind := kinds[int(t.Index)%len(kinds)]
		loads := 8
		base := []int{verBase, verBase, 200}[int(t.Index)/len(kinds)%3]
		mo := t.R.Intn(3) == 0
		ext := ".po"
		if mo {
			ext = ".mo"
		}
		root := filepath.Join(t.Scratch, fmt.Sprintf("rp-%d", t.Index))
		defer os.RemoveAll(root)
		libs := []string{filepath.Join(root, "a"), filepath.Join(root, "b")}
		sub := []string{"/", "/LC_MESSAGES/"}[t.R.Intn(2)]
		even := func(i int) bool { return i%4 < 2 }
		put := func(lib, lang, dom string, v int, has func(i int) bool) {
			m := verModelOf("A", v, has, base)
			b := m.RenderPO(nil)
			if mo {
				b = m.RenderMO(t.R, nil)
			}
			replaceFile(filepath.Join(lib, lang+sub+dom+ext), b)
		}
		lang := "xx_YY"
		if kind == "languages" {
			lang = "xx_YY:zz:yy"
		}
		place := func(v int) {
			switch kind {
			case "other-library":
				put(libs[v%2], "xx", "d", v, nil)
			case "other-language":
				put(libs[0], []string{"xx", "yy"}[v%2], "d", v, nil)
			case "other-domain":
				put(libs[0], "xx", []string{"d", "e"}[v%2], v, nil)
			case "other-all":
				// no file of the other version's language is in the library of either
				put(libs[v%2], []string{"xx", "yy"}[v%2], "d", v, nil)
			case "languages":
				// the second and third half of the messages in other languages; one file after the other
				put(libs[0], "xx", "d", v, even)
				put(libs[0], "yy", "d", v, func(i int) bool { return !even(i) })
			default:
				put(libs[0], "xx", "d", v, nil)
			}
		}
		reload := func(v int) {
			k := kind
			if k == "languages" || k == "mixed" {
				k = kinds[t.R.Intn(4)]
			}
			switch k {
			case "SetDomain":
				gotext.SetDomain("d")
			case "SetLibrary":
				gotext.SetLibrary(libs[0])
			case "SetLanguage":
				gotext.SetLanguage(lang)
			case "Configure":
				gotext.Configure(libs[0], lang, "d")
			case "other-library":
				gotext.SetLibrary(libs[v%2])
			case "other-language":
				gotext.SetLanguage([]string{"xx", "yy"}[v%2])
			case "other-domain":
				gotext.SetDomain([]string{"d", "e"}[v%2])
			case "other-all":
				gotext.Configure(libs[v%2], []string{"xx", "yy"}[v%2], "d")
			case "SetLocales":
				l := gotext.NewLocale(libs[0], lang)
				l.AddDomain("d")
				gotext.SetLocales([]*gotext.Locale{l})
			}
		}
		place(0)
		if kind == "other-domain" {
			place(1)
		}
		first := lang
		if kind == "other-language" || kind == "other-all" {
			first = "xx"
		}
		gotext.Configure(libs[0], first, "d")
		t.Logf("%s", kind)
		queries := kind != "other-language" && kind != "other-all"
		var begun, done atomic.Int64
		versioned(t, "answers_during_a_reload", func() {
			for v := 1; v < loads; v++ {
				begun.Store(int64(v))
				place(v)
				reload(v)
				done.Store(int64(v))
				t.Count("package_reloads", 1)
				t.Count("reloads", 1)
				t.Progress()
				for i := 0; i < 300; i++ {
					runtime.Gosched()
				}
			}
		}, 3, func(rd *reader, r *rand.Rand) {
			lo := int(done.Load())
			dom := "d"
			look, ask := pkgLookup, pkgQuery
			if kind != "languages" && r.Intn(3) == 0 {
				// the locale that the package uses now
				own := func(p PCall) bool { return kind != "other-domain" || !p.hasDom() }
				look = func(p PCall) string {
					if !own(p) {
						return pkgLookup(p)
					}
					rd.counts["lookups_on_package_locales"]++
					return locLookup(gotext.GetLocales()[0], p)
				}
				ask = func(p PCall) bool {
					if !own(p) {
						return pkgQuery(p)
					}
					return locQuery(gotext.GetLocales()[0], p)
				}
			}
			what, v := verRead(rd, r, dom, queries, look, ask)
			hi := int(begun.Load())
			if lo < hi {
				rd.during++
			}
			if rd.bad != "" || v < 0 {
				return
			}
			named := false
			for _, fn := range []string{"GetD(", "GetND(", "GetDC(", "GetNDC("} {
				named = named || strings.HasPrefix(what, fn)
			}
			ok := v >= lo && v <= hi
			if kind == "other-domain" {
				// only the default domain is what is reloaded, and other loaded domains may be older
				ok = v <= hi && (named || lo < hi || v == lo)
			}
			if !ok {
				rd.bad = fmt.Sprintf("%s: of version A%d, version %d had been loaded before the call and %d begun before its end", what, v, lo, hi)
				return
			}
			if !named {
				rd.saw("A", v, lo, hi)
			}
		})
	})
}
