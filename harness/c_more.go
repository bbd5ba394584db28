package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C35", Rule: "directory trees and file systems whose locale files are rewritten (also with the same size and time), replaced, switched by a link, removed, added before the one in use, or whose storage fails or panics, between lookups of a locale and of the package; every answer compared with the catalogues that were there when the domain was loaded, and after each kind of reload with those that are there now; any storage operation during a lookup in a loaded domain is seen; distinct by layout and history",
		Need: []string{"rewritten", "same_size_and_time", "removed", "added", "switched", "reloads", "answers_before_reload", "answers_after_reload", "lookups_without_storage", "objects_reloaded"},
		Run:  runC35})
	register(&Check{ID: "C36", Rule: "entries handed out by catalogues of every origin and entries made by hand, with sparse and empty forms; random sequences of setting forms and references on them; every method compared with a plain record after each step; distinct by the sequence",
		Need: []string{"handed_out", "made", "Set", "SetN", "SetRefs", "queries", "shared_references"},
		Run:  runC36})
	register(&Check{ID: "C37", Rule: "random sequences of adding, setting, deleting and reading headers whose keys differ by case, spaces or not at all, on free maps and on catalogues of every origin, compared with an ordered list of pairs; then exported as text and binary and loaded again; distinct by the sequence",
		Need: []string{"Add", "Set", "Del", "reads", "exports", "nil_maps"},
		Run:  runC37})
	register(&Check{ID: "C38", Level: "exploration", Rule: "several catalogue objects, locales and the package side by side, with the same keys, headers and rules and texts of their own, changed one after the other and at the same time (race detector); each compared with its own plain keyed store after every step; objects restored from one another, locales of one directory; header maps the program changes in objects that have loaded the same header; distinct by the sequence",
		Need: []string{"objects", "steps", "locales", "concurrent_steps", "copies", "exports_compared", "header_steps", "same_headers", "same_files"},
		Run:  runC38})
}

// ---------------------------------------------------------------- C35

// diskWorld is a world whose files change after they have been loaded: place holds what is loaded, disk what is on disk.
type diskWorld struct {
	*World
	disk map[string]*Model
	seed map[string]int64
	ver  int
}

func newDiskWorld(t *T) *diskWorld {
	w := &diskWorld{World: newWorld(t, true), seed: map[string]int64{}}
	w.disk = map[string]*Model{}
	var ps []string
	for p := range w.place {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		w.write(p, w.place[p])
	}
	return w
}

func (w *diskWorld) paths() []string {
	var ps []string
	for p := range w.disk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// render gives the same layout for the same path.
func (w *diskWorld) render(p string, m *Model) []byte {
	if _, ok := w.seed[p]; !ok {
		w.seed[p] = w.t.R.Int63()
	}
	r := rand.New(rand.NewSource(w.seed[p]))
	if strings.HasSuffix(p, ".po") {
		return m.RenderPO(r)
	}
	return m.RenderMO(r, nil)
}

func (w *diskWorld) write(p string, m *Model) {
	writeFile(filepath.Join(w.root, p), w.render(p, m))
	w.disk[p] = m
}

// otherTexts is the same catalogue with other translations of the same lengths.
func (w *diskWorld) otherTexts(m *Model) *Model {
	w.ver++
	o := m.clone()
	for _, e := range o.Entries {
		for i, f := range e.Forms {
			if len(f) > 1 && f[0] == '<' {
				e.Forms[i] = "<" + string(rune('A'+w.ver%26)) + f[2:]
			}
		}
	}
	return o
}

func (w *diskWorld) fresh() *Model {
	w.ver++
	if w.t.R.Intn(6) == 0 {
		w.t.Count("emptied", 1)
		m := newModel() // nothing translated any more
		if w.t.R.Intn(2) == 0 {
			m = genCatalogue(w.t.R, GenOpt{Max: 1, NoRule: true, MaxForms: 4})
			m.Entries = map[Key]*Entry{}
		}
		return m
	}
	m := genCatalogue(w.t.R, GenOpt{Max: 6, Partial: true, NoHeader: true, NoRule: true, KeyPool: w.keys, MaxForms: 4})
	tag(m, fmt.Sprintf("V%d.", w.ver))
	return m
}

// change does something to a file that may be in use. Files only appear where a file has been found already.
func (w *diskWorld) change(seen func(path string) bool) {
	t, r := w.t, w.t.R
	ps := w.paths()
	if len(ps) == 0 {
		return
	}
	p := ps[r.Intn(len(ps))]
	full := filepath.Join(w.root, p)
	switch r.Intn(6) {
	case 0: // new contents
		w.write(p, w.fresh())
		t.Count("rewritten", 1)
		t.Logf("rewrote %s", p)
	case 1: // replaced as editors do
		m := w.fresh()
		writeFile(full+".new", w.render(p, m))
		if err := os.Rename(full+".new", full); err != nil {
			panic(err)
		}
		w.disk[p] = m
		t.Count("rewritten", 1)
		t.Logf("replaced %s", p)
	case 2, 3: // other texts of the same size, with the time the file had
		st, err := os.Stat(full)
		if err != nil {
			panic(err)
		}
		w.write(p, w.otherTexts(w.disk[p]))
		if r.Intn(4) > 0 {
			os.Chtimes(full, st.ModTime(), st.ModTime())
		}
		if now, _ := os.Stat(full); now.Size() == st.Size() {
			t.Count("same_size_and_time", 1)
		}
		t.Logf("rewrote %s with other texts", p)
	case 4:
		os.Remove(full)
		delete(w.disk, p)
		t.Count("removed", 1)
		t.Logf("removed %s", p)
	case 5: // another candidate
		i := strings.IndexByte(p, '/')
		dom := strings.TrimSuffix(filepath.Base(p), filepath.Ext(p))
		q := p[:i] + []string{"/", "/LC_MESSAGES/"}[r.Intn(2)] + dom + []string{".po", ".mo"}[r.Intn(2)]
		if w.disk[q] != nil || !seen(q) {
			return
		}
		w.write(q, w.fresh())
		t.Count("added", 1)
		t.Logf("added %s", q)
	}
}

// loadAll loads every domain of every configured language, by looking up what none has.
func (w *diskWorld) loadAll() {
	for _, d := range w.doms {
		gotext.GetD(d, "\x02no such message\x02")
	}
}

func runC35(c *C) {
	c.Cases("package", c.N(900, 12000), 1, func(t *T) {
		r := t.R
		w := newDiskWorld(t)
		defer w.close()
		// the library may be a link that is switched
		real := w.root
		link := w.root + "-link"
		defer os.Remove(link)
		linked := r.Intn(3) == 0
		if linked {
			if err := os.Symlink(real, link); err != nil {
				panic(err)
			}
			w.root = link
		}
		defer func() { w.root = real }()
		w.configure()
		w.loadAll()
		seen := func(q string) bool {
			i := strings.IndexByte(q, '/')
			dom := strings.TrimSuffix(filepath.Base(q), filepath.Ext(q))
			for _, l := range w.langs {
				if l = simplify(l); l == q[:i] || bare(l) == q[:i] {
					if m, _ := w.resolve(l, dom); m == nil {
						return false
					}
				}
			}
			return true
		}
		ask := func(n int, what string) bool {
			for i := 0; i < n; i++ {
				p := w.randomCall(lookupFns)
				if r.Intn(4) == 0 {
					p = w.randomCall(queryFns)
					if got, want := pkgQuery(p), w.wantQuery(p); got != want {
						t.Failf("query", "%s: %v: got %v, want %v", what, p, got, want)
						return false
					}
					t.Count(what, 1)
					continue
				}
				p.Args = genArgs(r, 2)
				want, _ := w.want(p)
				if got := pkgLookup(p); got != want {
					t.Failf("lookup", "%s: %v: got %q, want %q", what, p, got, want)
					return false
				}
				t.Count(what, 1)
			}
			return true
		}
		for i := 0; i < 4; i++ {
			for j := 0; j <= r.Intn(4); j++ {
				w.change(seen)
			}
			if linked && r.Intn(2) == 0 {
				// a new release, and back
				other := filepath.Join(t.Scratch, "empty")
				os.MkdirAll(other, 0o755)
				os.Remove(link)
				os.Symlink(other, link)
				t.Count("switched", 1)
				if !ask(4, "answers_before_reload") {
					return
				}
				os.Remove(link)
				os.Symlink(real, link)
			}
			if !ask(10, "answers_before_reload") {
				return
			}
			switch r.Intn(5) {
			case 0:
				if r.Intn(2) == 0 {
					w.dom = w.doms[r.Intn(len(w.doms))]
				}
				gotext.SetDomain(w.dom)
				t.Logf("SetDomain(%q)", w.dom)
			case 1:
				gotext.SetLanguage(strings.Join(w.langs, ":"))
				t.Logf("SetLanguage")
			case 2:
				gotext.SetLibrary(w.root)
				t.Logf("SetLibrary")
			case 3:
				if r.Intn(2) == 0 {
					w.dom = w.doms[r.Intn(len(w.doms))]
				}
				gotext.Configure(w.root, strings.Join(w.langs, ":"), w.dom)
				t.Logf("Configure")
			case 4:
				continue
			}
			w.place = map[string]*Model{}
			for p, m := range w.disk {
				w.place[p] = m
			}
			if r.Intn(2) == 0 {
				// the domain in use is taken by the setting, not by the first lookup after it
				inUse := func(p string) bool { return strings.TrimSuffix(filepath.Base(p), filepath.Ext(p)) == w.dom }
				for j := 0; j <= r.Intn(3); j++ {
					w.change(func(q string) bool { return inUse(q) && seen(q) })
				}
				for p := range w.place {
					if !inUse(p) {
						delete(w.place, p)
					}
				}
				for p, m := range w.disk {
					if !inUse(p) {
						w.place[p] = m
					}
				}
				t.Count("changed_after_setting", 1)
			}
			w.loadAll()
			t.Count("reloads", 1)
			if !ask(10, "answers_after_reload") {
				return
			}
		}
		t.Eval()
		t.Distinct(strings.Join(t.log, ";"))
		t.Sample(strings.Join(t.log, "; "))
	})
	c.Cases("locale", c.N(800, 20000), par(), func(t *T) {
		r := t.R
		w := newDiskWorld(t)
		defer w.close()
		lang := w.pool[r.Intn(len(w.pool))]
		l := gotext.NewLocale(w.root, lang)
		if r.Intn(2) == 0 {
			l = gotext.NewLocaleFS(lang, os.DirFS(w.root))
		}
		loaded := map[string]*Model{}
		var old []Key
		current := func(dom string) *Model {
			x := &World{files: w.files, place: w.disk}
			m, _ := x.resolve(lang, dom)
			return m
		}
		add := func(dom string) {
			l.AddDomain(dom)
			t.Logf("AddDomain(%q)", dom)
			if m := current(dom); m != nil {
				loaded[dom] = m
				old = append(old, m.keys()...)
			}
			t.Count("reloads", 1)
		}
		for _, d := range w.doms {
			add(d)
		}
		for i := 0; i < 8; i++ {
			for j := 0; j <= r.Intn(3); j++ {
				w.change(func(string) bool { return true })
			}
			what := "answers_before_reload"
			if r.Intn(2) == 0 {
				add(w.doms[r.Intn(len(w.doms))])
				what = "answers_after_reload"
			}
			for _, d := range w.doms {
				m := loaded[d]
				if m == nil {
					continue
				}
				ps := m.probes(r, 0)
				for j := 0; j < 4 && len(old) > 0; j++ {
					k := old[r.Intn(len(old))]
					ps = append(ps, Probe{k.Ctx, k.ID, k.ID + "s", r.Intn(5)})
				}
				if !t.compare("locale", m, localeCat{l, d}, ps) {
					return
				}
				t.Count(what, 1)
			}
		}
		t.Eval()
		t.Distinct(strings.Join(t.log, ";"))
	})
	// an object reads the file that is there now
	c.Cases("object", c.N(800, 20000), par(), func(t *T) {
		r := t.R
		w := newDiskWorld(t)
		defer w.close()
		po, mo := gotext.NewPo(), gotext.NewMo()
		mpo, mmo := newModel(), newModel()
		where := func(p string) string { return filepath.Join(w.root, p) }
		if r.Intn(2) == 0 {
			po, mo = gotext.NewPoFS(os.DirFS(w.root)), gotext.NewMoFS(os.DirFS(w.root))
			where = func(p string) string { return p }
		}
		for i := 0; i < 10; i++ {
			ps := w.paths()
			if len(ps) == 0 {
				break
			}
			p := ps[r.Intn(len(ps))]
			var x catalog
			if strings.HasSuffix(p, ".po") {
				n := gotext.NewPo()
				n.ParseFile(filepath.Join(w.root, p))
				po.ParseFile(where(p))
				mpo.load(w.disk[p])
				x = n
			} else {
				n := gotext.NewMo()
				n.ParseFile(filepath.Join(w.root, p))
				mo.ParseFile(where(p))
				mmo.load(w.disk[p])
				x = n
			}
			t.Logf("ParseFile(%q)", p)
			t.Count("objects_reloaded", 2)
			if !t.compare("object", w.disk[p], x, w.disk[p].probes(r, 0)) ||
				!t.compare("object", mpo, po, mpo.probes(r, 0)) || !t.compare("object", mmo, mo, mmo.probes(r, 0)) {
				return
			}
			w.change(func(string) bool { return true })
		}
		t.Eval()
		t.Distinct(strings.Join(t.log, ";"))
	})
	// lookups in loaded domains leave the storage alone
	c.Cases("storage", c.N(1500, 15000), 1, func(t *T) {
		r := t.R
		f, vfs, kind := newFaultFS(r)
		langs := []string{"xx", "yy_AA", "zz"}[:1+r.Intn(3)]
		models := map[string]map[string]*Model{}
		var ls []*gotext.Locale
		for _, l := range langs {
			models[l] = map[string]*Model{}
			for _, d := range []string{"d", "e"} {
				m := genCatalogue(r, GenOpt{Max: 5, Partial: true, NoRule: true, NoHeader: true, MaxForms: 3})
				tag(m, l+d)
				name := []string{l, bare(l)}[r.Intn(2)] + []string{"/", "/LC_MESSAGES/"}[r.Intn(2)] + d
				if r.Intn(2) == 0 {
					f.files[name+".po"] = m.RenderPO(r)
				} else {
					f.files[name+".mo"] = m.RenderMO(r, nil)
				}
				models[l][d] = m
			}
			x := gotext.NewLocaleFS(l, vfs)
			x.AddDomain("d")
			x.AddDomain("e")
			ls = append(ls, x)
		}
		t.Logf("%s, languages %q", kind, langs)
		gotext.SetLocales(ls)
		f.reset(0, 1<<30, []faultKind{{"panic", errStoragePanic}, {"gone", fs.ErrNotExist}, {"io", errEIO}}[r.Intn(3)])
		for i, l := range langs {
			for _, d := range []string{"d", "e"} {
				m := models[l][d]
				if !t.compare("storage", m, localeCat{ls[i], d}, m.probes(r, 0)) {
					return
				}
				w := &World{t: t, langs: langs, dom: "d", doms: []string{"d", "e"}, files: models, mem: true, keys: m.keys()}
				for j := 0; j < 6; j++ {
					p := w.randomCall(lookupFns)
					if p.hasDom() && !in(w.doms, p.Dom) {
						p.Dom = "e"
					}
					want, _ := w.want(p)
					if got := pkgLookup(p); got != want {
						t.Failf("storage", "%v: got %q, want %q", p, got, want)
						return
					}
				}
				t.Count("lookups_without_storage", 6)
			}
		}
		f.mu.Lock()
		ops := append([]string(nil), f.ops...)
		f.mu.Unlock()
		if len(ops) > 0 {
			t.Failf("storage", "lookups in loaded domains did %q", ops)
		}
		t.Eval()
	})
}

// ---------------------------------------------------------------- C36

// record is what an entry has to be.
type record struct {
	id, plural string
	forms      map[int]string
	refs       []string
	dirty      bool
}

func (x *record) diff(tr *gotext.Translation, extra int) string {
	get := func(n int) string {
		if f := x.forms[n]; f != "" {
			return f
		}
		if n == 0 {
			return x.id
		}
		return x.plural
	}
	if g := tr.Get(); g != get(0) {
		return fmt.Sprintf("Get() = %q, want %q", g, get(0))
	}
	if g, w := tr.IsTranslated(), x.forms[0] != ""; g != w {
		return fmt.Sprintf("IsTranslated() = %v, want %v", g, w)
	}
	for _, n := range []int{0, 1, 2, 3, 4, extra} {
		if g := tr.GetN(n); g != get(n) {
			return fmt.Sprintf("GetN(%d) = %q, want %q", n, g, get(n))
		}
		if g, w := tr.IsTranslatedN(n), x.forms[n] != ""; g != w {
			return fmt.Sprintf("IsTranslatedN(%d) = %v, want %v", n, g, w)
		}
	}
	if tr.IsStale() == x.dirty {
		return fmt.Sprintf("IsStale() = %v, want %v", tr.IsStale(), !x.dirty)
	}
	if tr.ID != x.id || tr.PluralID != x.plural {
		return fmt.Sprintf("the ids are %q and %q, want %q and %q", tr.ID, tr.PluralID, x.id, x.plural)
	}
	if !sameStrings(tr.Refs, x.refs) {
		return fmt.Sprintf("the references are %q, want %q", tr.Refs, x.refs)
	}
	for i, f := range tr.Trs {
		if x.forms[i] != f {
			return fmt.Sprintf("form %d is %q, want %q", i, f, x.forms[i])
		}
	}
	for i, f := range x.forms {
		if tr.Trs[i] != f {
			return fmt.Sprintf("form %d is %q, want %q", i, tr.Trs[i], f)
		}
	}
	return ""
}

func runC36(c *C) {
	c.Cases("entries", c.N(9000, 90000), par(), func(t *T) {
		r := t.R
		type pair struct {
			tr *gotext.Translation
			x  *record
		}
		var all []pair
		if r.Intn(3) > 0 {
			ed, m := build(t, false)
			d := domainOf(ed)
			put := func(ctx string, tr *gotext.Translation) {
				e := m.Entries[Key{ctx, tr.ID}]
				if e == nil {
					return
				}
				x := &record{e.ID, e.Plural, map[int]string{}, append([]string(nil), e.Refs...), e.Dirty}
				for i, f := range e.Forms {
					x.forms[i] = f
				}
				all = append(all, pair{tr, x})
				t.Count("handed_out", 1)
			}
			ids := []string{}
			trs := d.GetTranslations()
			for id := range trs {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				if id != "" {
					put("", trs[id])
				}
			}
			ctxs := d.GetCtxTranslations()
			for _, k := range m.keys() {
				if k.Ctx != "" && ctxs[k.Ctx][k.ID] != nil {
					put(k.Ctx, ctxs[k.Ctx][k.ID])
				}
			}
		}
		var shared []string // references given to several entries
		for i := 0; i < 2+r.Intn(2); i++ {
			x := &record{forms: map[int]string{}}
			var tr *gotext.Translation
			if r.Intn(2) == 0 {
				tr = gotext.NewTranslation()
			} else {
				x.refs = []string{"a.go:1", genRef(r), genRef(r)}[:r.Intn(4)]
				own := append([]string(nil), x.refs...)
				if shared != nil && r.Intn(2) == 0 {
					own, x.refs = shared, append([]string(nil), shared...)
					t.Count("shared_references", 1)
				}
				shared = own
				tr = gotext.NewTranslationWithRefs(own)
			}
			if r.Intn(3) > 0 {
				x.id, x.plural = genText(r, 2), []string{"", genText(r, 2)}[r.Intn(2)]
				tr.ID, tr.PluralID = x.id, x.plural
			}
			all = append(all, pair{tr, x})
			t.Count("made", 1)
		}
		seq := ""
		for i := 0; i < 14; i++ {
			p := all[r.Intn(len(all))]
			n := []int{0, 1, 2, 3, 7, 1000, -1}[r.Intn(7)]
			val := fmt.Sprintf("S%d", i)
			if r.Intn(5) == 0 {
				val = ""
			}
			switch r.Intn(4) {
			case 0:
				p.tr.Set(val)
				p.x.forms[0], p.x.dirty = val, true
				seq += "s"
				t.Count("Set", 1)
				t.Logf("Set(%q) on %q", val, p.x.id)
			case 1:
				p.tr.SetN(n, val)
				p.x.forms[n], p.x.dirty = val, true
				seq += "n"
				t.Count("SetN", 1)
				t.Logf("SetN(%d, %q) on %q", n, val, p.x.id)
			case 2:
				refs := []string{"x.go:1", genRef(r), genRef(r)}[:r.Intn(4)]
				p.tr.SetRefs(refs)
				p.x.refs, p.x.dirty = append([]string(nil), refs...), true
				seq += "r"
				t.Count("SetRefs", 1)
				t.Logf("SetRefs(%q) on %q", refs, p.x.id)
			case 3:
				seq += "q"
			}
			for _, p := range all {
				if d := p.x.diff(p.tr, n); d != "" {
					t.Failf("entry", "the entry %q: %s", p.x.id, d)
					return
				}
			}
			t.Count("queries", int64(len(all)))
		}
		t.Eval()
		t.Distinct(seq, fmt.Sprint(len(all)))
		t.Sample(strings.Join(t.log, "; "))
	})
}

// ---------------------------------------------------------------- C37

func runC37(c *C) {
	keys := []string{"X-A", "x-a", "X-a", "X-A ", "Language-Team", "language-team", "Content-Type", "ключ", "X B", "1", "", "Project-Id-Version", "Éa"}
	c.Cases("map", c.N(9000, 90000), par(), func(t *T) {
		r := t.R
		h := gotext.HeaderMap{}
		want := map[string][]string{}
		seq := ""
		type held struct {
			what      string
			got, want []string
		}
		var lists []held
		for i := 0; i < 20; i++ {
			k, v := keys[r.Intn(len(keys))], fmt.Sprintf("v%d %s", i, genText(r, 2))
			if r.Intn(6) == 0 {
				v = ""
			}
			if n := len(want[k]); n > 0 && r.Intn(5) == 0 {
				v = want[k][r.Intn(n)]
			}
			if g := h.Values(k); len(g) > 0 {
				lists = append(lists, held{fmt.Sprintf("Values(%q) of step %d", k, i), g, append([]string(nil), want[k]...)})
				if k2 := keys[r.Intn(len(keys))]; k2 != k && r.Intn(6) == 0 {
					h[k2] = g[:len(g):len(g)]
					want[k2] = append([]string(nil), want[k]...)
					t.Logf("h[%q] = Values(%q)", k2, k)
				}
			}
			switch r.Intn(5) {
			case 0, 1:
				h.Add(k, v)
				want[k] = append(want[k], v)
				t.Count("Add", 1)
				t.Logf("Add(%q, %q)", k, v)
			case 2:
				h.Set(k, v)
				want[k] = []string{v}
				t.Count("Set", 1)
				t.Logf("Set(%q, %q)", k, v)
			case 3:
				h.Del(k)
				delete(want, k)
				t.Count("Del", 1)
				t.Logf("Del(%q)", k)
			}
			seq += k
			for _, k := range keys {
				first := ""
				if len(want[k]) > 0 {
					first = want[k][0]
				}
				if g := h.Get(k); g != first {
					t.Failf("get", "Get(%q) = %q, want %q", k, g, first)
					return
				}
				if g := h.Values(k); !sameStrings(g, want[k]) {
					t.Failf("values", "Values(%q) = %q, want %q", k, g, want[k])
					return
				}
				t.Count("reads", 2)
			}
			for _, x := range lists {
				if !sameStrings(x.got, x.want) {
					t.Failf("held", "%s: now %q, was %q", x.what, x.got, x.want)
					return
				}
			}
			if len(h) != len(want) {
				t.Failf("keys", "the map has %d keys, want %d: %q", len(h), len(want), h)
				return
			}
		}
		var none gotext.HeaderMap
		if none.Get("X-A") != "" || none.Values("X-A") != nil {
			t.Failf("nil", "a nil map has values")
		}
		none.Del("X-A")
		t.Count("nil_maps", 1)
		t.Eval()
		t.Distinct(seq)
	})
	c.Cases("catalogue", c.N(6000, 60000), par(), func(t *T) {
		r := t.R
		ed, m := build(t, false)
		if len(m.Entries) == 0 || hasLater(m) {
			return
		}
		d := domainOf(ed)
		if d.Headers == nil {
			return
		}
		want := map[string][]string{}
		for k, v := range d.Headers {
			want[k] = append([]string(nil), v...)
		}
		// what the export says, as another reader sees it
		exported := func() ([]byte, bool) {
			txt, err := ed.MarshalText()
			if err != nil {
				t.Failf("export", "%v", err)
				return nil, false
			}
			items, err := strictPO(txt)
			if err != nil {
				t.Failf("export", "the export is not PO: %v", err)
				return nil, false
			}
			lines := map[string][]string{}
			for _, it := range items {
				if it.ID == "" && it.Ctx == "" {
					for _, l := range strings.Split(it.Forms[0], "\n") {
						if i := strings.IndexByte(l, ':'); i >= 0 {
							lines[l[:i]] = append(lines[l[:i]], strings.TrimSpace(l[i+1:]))
						}
					}
				}
			}
			if s := sameHeaders(lines, want); s != "" {
				t.Failf("export", "exported: %s\n%s", s, quote(txt))
				return nil, false
			}
			t.Count("exports", 1)
			return txt, true
		}
		for i := 0; i < 1+r.Intn(5); i++ {
			if r.Intn(3) == 0 {
				if _, ok := exported(); !ok {
					return
				}
			}
			k := []string{"X-One", "x-one", "X-Two", "Language-Team", "MIME-Version", "Report-Msgid-Bugs-To", "Ключ"}[r.Intn(7)]
			v := genPlain(r, 2)
			if r.Intn(6) == 0 {
				v = ""
			} else if n := len(want[k]); n > 0 && r.Intn(4) == 0 {
				v = want[k][r.Intn(n)]
			}
			switch r.Intn(4) {
			case 0:
				d.Headers.Add(k, v)
				want[k] = append(want[k], v)
				t.Count("Add", 1)
				t.Logf("Add(%q, %q)", k, v)
			case 1, 2:
				d.Headers.Set(k, v)
				want[k] = []string{v}
				t.Count("Set", 1)
				t.Logf("Set(%q, %q)", k, v)
			case 3:
				d.Headers.Del(k)
				delete(want, k)
				t.Count("Del", 1)
				t.Logf("Del(%q)", k)
			}
		}
		if s := sameHeaders(d.Headers, want); s != "" {
			t.Failf("headers", "%s", s)
			return
		}
		txt, ok := exported()
		if !ok {
			return
		}
		t.Logf("exported %s", quote(txt))
		p2 := gotext.NewPo()
		p2.Parse(txt)
		if s := sameHeaders(p2.GetDomain().Headers, want); s != "" {
			t.Failf("reload", "loaded again: %s", s)
			return
		}
		bin, err := ed.MarshalBinary()
		if err != nil {
			t.Failf("binary", "%v", err)
			return
		}
		p3 := gotext.NewPo()
		if err := p3.UnmarshalBinary(bin); err != nil {
			t.Failf("binary", "%v", err)
			return
		}
		if s := sameHeaders(p3.GetDomain().Headers, want); s != "" {
			t.Failf("binary", "restored: %s", s)
			return
		}
		// the entries are as they were
		if x := diffEntries(snapshot(d), m.Entries, snapOpt{}); x != "" {
			t.Failf("entries", "%s", x)
			return
		}
		t.Eval()
		t.Distinct(string(txt))
		t.Sample(strings.Join(t.log, "; "))
	})
}

// ---------------------------------------------------------------- C38

func runC38(c *C) {
	// one after the other
	c.Cases("steps", c.N(500, 6000), par(), func(t *T) {
		r := t.R
		pool := keyPool(r)
		var all []*store
		// what each has exported last
		type export struct {
			txt, bin     []byte
			txtIs, binIs string
		}
		last := map[*store]*export{}
		take := func(s *store) bool {
			x := &export{}
			var err, err2 error
			x.txt, err = s.ed.MarshalText()
			x.bin, err2 = s.ed.MarshalBinary()
			if err != nil || err2 != nil {
				t.Failf("export", "%v %v", err, err2)
				return false
			}
			x.txtIs, x.binIs = string(x.txt), string(x.bin)
			last[s] = x
			return true
		}
		for i := 0; i < 2+r.Intn(4); i++ {
			s := newStore(r, pool)
			s.mark = fmt.Sprintf("O%d.", i)
			all = append(all, s)
			t.Count("objects", 1)
		}
		seq := ""
		for i := 0; i < 14 && !t.Failed(); i++ {
			s := all[r.Intn(len(all))]
			if r.Intn(8) == 0 {
				// a copy of another object, which then goes its own way
				o := all[r.Intn(len(all))]
				if o != s {
					bin, err := o.ed.MarshalBinary()
					if err != nil {
						t.Failf("copy", "%v", err)
						return
					}
					if !s.restore(t, bin, copyOf(o.m)) {
						return
					}
					t.Count("copies", 1)
					seq += "c"
					goto check
				}
			}
			seq += fmt.Sprint(s.mark, s.step(t))
		check:
			t.Count("steps", 1)
			for _, x := range all {
				if !t.state("isolation", x.m, x.o, true) {
					t.Logf("object %s", x.mark)
					return
				}
			}
			if !take(s) {
				return
			}
			for x, e := range last {
				if string(e.txt) != e.txtIs || string(e.bin) != e.binIs {
					t.Failf("export", "an export of %s has changed to %s / %q", x.mark, quote(e.txt), e.bin)
					return
				}
				if x == s {
					continue
				}
				if g, _ := x.ed.MarshalText(); string(g) != e.txtIs {
					t.Failf("export", "%s is now exported as %s, before the last step as %s", x.mark, quote(g), quote([]byte(e.txtIs)))
					return
				}
				t.Count("exports_compared", 1)
			}
		}
		t.Distinct(seq)
		t.Sample(seq)
	})
	// headers changed by the program, of objects that have loaded the same header
	c.Cases("headers", c.N(700, 9000), par(), func(t *T) {
		r := t.R
		type object struct {
			name string
			d    *gotext.Domain
			load func([]byte)
			ed   editable
			mo   bool
			want map[string][]string
		}
		var files []*Model
		for i := 0; i < 1+r.Intn(2); i++ {
			files = append(files, genCatalogue(r, GenOpt{Max: 3, NoRule: true}))
		}
		var all []*object
		for i := 0; i < 2+r.Intn(3); i++ {
			o := &object{name: fmt.Sprintf("O%d", i), want: map[string][]string{}}
			if o.mo = r.Intn(3) == 0; o.mo {
				mo := gotext.NewMo()
				o.d, o.load, o.ed = mo.GetDomain(), mo.Parse, mo.GetDomain()
			} else {
				po := gotext.NewPo()
				o.d, o.load, o.ed = po.GetDomain(), po.Parse, po
			}
			all = append(all, o)
		}
		seq := ""
		for i := 0; i < 14; i++ {
			o := all[r.Intn(len(all))]
			keys := []string{"Language", "X-Own", "language", "Content-Type"}
			for k := range o.want {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			k, v := keys[r.Intn(len(keys))], fmt.Sprintf("%s.%d", o.name, i)
			if len(o.want) == 0 && o.d.Headers == nil {
				o.d.Headers = gotext.HeaderMap{}
			}
			op := r.Intn(7)
			switch op {
			case 0, 1:
				f := files[r.Intn(len(files))]
				if o.mo {
					o.load(f.RenderMO(r, nil))
				} else {
					o.load(f.RenderPO(r))
				}
				o.want = map[string][]string{}
				for _, h := range f.Headers {
					o.want[h.K] = append(o.want[h.K], h.V)
				}
				t.Count("same_headers", 1)
			case 2:
				o.d.Headers.Add(k, v)
				o.want[k] = append(o.want[k], v)
			case 3:
				o.d.Headers.Set(k, v)
				o.want[k] = []string{v}
			case 4:
				o.d.Headers.Del(k)
				delete(o.want, k)
			case 5:
				if vs := o.d.Headers.Values(k); len(vs) > 0 { // as the map is one of the program's
					o.d.Headers[k][0] = v
					o.want[k][0] = v
				}
			case 6:
				from := all[r.Intn(len(all))]
				if from == o {
					continue
				}
				bin, err := from.ed.MarshalBinary()
				if err == nil {
					err = o.ed.UnmarshalBinary(bin)
				}
				if err != nil {
					t.Failf("restore", "%v", err)
					return
				}
				o.want = map[string][]string{}
				for k, vs := range from.want {
					o.want[k] = append([]string(nil), vs...)
				}
				t.Count("copies", 1)
			}
			t.Logf("%s: %d %q", o.name, op, k)
			t.Count("header_steps", 1)
			seq += fmt.Sprint(o.name, op)
			for _, x := range all {
				if d := sameHeaders(x.d.Headers, x.want); d != "" {
					t.Failf("headers", "after a step of %s, %s has %s", o.name, x.name, d)
					return
				}
			}
		}
		t.Eval()
		t.Distinct("headers", seq)
	})
	// at the same time
	c.Cases("concurrent", c.N(60, 1500), 1, func(t *T) {
		r := t.R
		pool := keyPool(r)
		n := 4 + r.Intn(4)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			s := newStore(r, pool)
			s.mark = fmt.Sprintf("O%d.", i)
			sub := &T{C: t.C, Group: t.Group, Index: t.Index, R: rand.New(rand.NewSource(r.Int63()))}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sub.Guard("object", func() {
					for j := 0; j < 12 && !sub.Failed() && !t.Stopped(); j++ {
						s.step(sub)
						t.Count("concurrent_steps", 1)
						if j%3 == 2 && !sub.state("isolation", s.m, s.o, true) {
							return
						}
						if txt, err := s.ed.MarshalText(); err != nil || len(txt) == 0 && len(s.m.Entries) > 0 {
							sub.Failf("export", "%d bytes, %v", len(txt), err)
						}
					}
				})
			}()
		}
		wg.Wait()
		t.Count("objects", int64(n))
		t.Eval()
	})
	// locales of one directory, and the package
	c.Cases("locales", c.N(120, 2500), 1, func(t *T) {
		r := t.R
		w := newWorld(t, true)
		defer w.close()
		w.configure()
		type loc struct {
			l    *gotext.Locale
			lang string
			dom  string
			m    map[string]*Model
		}
		var all []*loc
		// often several of one language, which load the same files
		oneLang := r.Intn(2) == 0
		for i := 0; i < 2+r.Intn(3); i++ {
			x := &loc{lang: w.pool[r.Intn(len(w.pool))], m: map[string]*Model{}}
			if oneLang && i > 0 {
				x.lang = all[0].lang
			}
			x.l = gotext.NewLocale(w.root, x.lang)
			all = append(all, x)
			t.Count("locales", 1)
			for _, d := range w.doms {
				if !oneLang || r.Intn(4) == 0 {
					continue
				}
				x.l.AddDomain(d)
				t.Logf("%s: AddDomain(%q)", x.lang, d)
				if m, _ := w.resolve(x.lang, d); m != nil {
					x.m[d] = m.clone()
					if x.dom == "" {
						x.dom = d
					}
					if i > 0 && all[0].m[d] != nil {
						t.Count("same_files", 1)
					}
				}
			}
		}
		for i := 0; i < 12; i++ {
			x := all[r.Intn(len(all))]
			d := w.doms[r.Intn(len(w.doms))]
			switch r.Intn(6) {
			case 0, 1:
				x.l.AddDomain(d)
				if m, _ := w.resolve(x.lang, d); m != nil {
					x.m[d] = m.clone()
					if x.dom == "" {
						x.dom = d
					}
				}
				t.Logf("%s: AddDomain(%q)", x.lang, d)
			case 2:
				x.l.SetDomain(d)
				x.dom = d
				t.Logf("%s: SetDomain(%q)", x.lang, d)
			case 3:
				// a translator of its own
				m := genCatalogue(r, GenOpt{Max: 4, NoRule: true, NoHeader: true, KeyPool: w.keys})
				tag(m, fmt.Sprintf("own %d.", i))
				po := gotext.NewPo()
				po.Parse(m.RenderPO(r))
				x.l.AddTranslator(d, po)
				x.m[d] = m
				if x.dom == "" {
					x.dom = d
				}
				t.Logf("%s: AddTranslator(%q)", x.lang, d)
			case 4:
				// an edit of one locale's catalogue
				if x.m[d] != nil {
					k := w.keys[r.Intn(len(w.keys))]
					val := fmt.Sprintf("edit %d", i)
					dm := x.l.Domains[d].GetDomain()
					if k.Ctx == "" {
						dm.Set(k.ID, val)
					} else {
						dm.SetC(k.ID, k.Ctx, val)
					}
					x.m[d].apply(Edit{Op: "Set", K: k, Val: val})
					t.Logf("%s: %s in %q is %q", x.lang, k, d, val)
				}
			case 5:
				w.dom = d
				switch r.Intn(3) {
				case 0:
					gotext.SetDomain(d)
				case 1:
					w.langs = []string{w.pool[r.Intn(len(w.pool))], w.pool[r.Intn(len(w.pool))]}
					gotext.Configure(w.root, strings.Join(w.langs, ":"), d)
				case 2:
					gotext.SetDomain(d)
					gotext.SetLibrary(w.root)
				}
				t.Logf("package: domain %q languages %q", d, w.langs)
			}
			t.Count("steps", 1)
			for _, x := range all {
				if g := x.l.GetDomain(); g != x.dom {
					t.Failf("domain", "the domain of %s is %q, want %q", x.lang, g, x.dom)
					return
				}
				for d, m := range x.m {
					if !t.compare("locale", m, localeCat{x.l, d}, m.probes(r, 0)) {
						return
					}
				}
			}
			for j := 0; j < 4; j++ {
				p := w.randomCall(lookupFns)
				want, _ := w.want(p)
				if got := pkgLookup(p); got != want {
					t.Failf("package", "%v: got %q, want %q", p, got, want)
					return
				}
			}
		}
		t.Eval()
		t.Distinct(strings.Join(t.log, ";"))
	})
}

// copyOf is what a restored object has.
func copyOf(m *Model) *Model {
	o := m.clone()
	o.Custom = nil
	return o
}
