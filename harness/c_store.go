package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
)

func init() {
	register(&Check{ID: "C25", Rule: "catalogues from PO, MO and edits, and locales of them: snapshots are compared with the model, then altered in every way (entries, forms, references, maps, through methods), as are input and output buffers, and the catalogue compared again; then the catalogue is edited, loaded into and emptied and the snapshots compared; long random sequences of read operations between exact comparisons of the whole state",
		Need: []string{"snapshots_altered", "buffers_reused", "snapshots_outlived", "reads", "locale_snapshots"},
		Run:  runC25})
	register(&Check{ID: "C26", Rule: "random sequences of loads (PO or MO), the five edits, stale drops, restores and resolver changes over few overlapping keys on one object, compared step by step with a plain keyed store: snapshots with references and marks, reference queries, all lookups; distinct by the sequence",
		Need: []string{"Set", "SetN", "SetC", "SetNC", "SetRefs", "Drop", "load", "restore", "resolver", "dropped", "kept"},
		Run:  runC26})
	register(&Check{ID: "C30", Rule: "calls of every kind one after the other, with accepted and refused plural rules, files (of up to several MB) and serialised bytes, panicking resolvers, translators and storage, and settings that are refused; after each batch the goroutines are counted, and any that stay behind inside the library are a leak; afterwards every other operation has to complete",
		Need: []string{"large_files", "rules_accepted", "rules_refused", "files", "refused_files", "panicking_resolvers", "panicking_translators", "panicking_calls", "panicking_storage", "package_calls", "operations_after"},
		Run:  runC30})
}

// state compares everything an object tells with the model.
func (t *T) state(key string, m *Model, o catalog, withMarks bool) bool {
	if d := diffEntries(snapshot(domainOf(o)), m.Entries, snapOpt{noDirty: !withMarks}); d != "" {
		t.Failf(key, "%s", d)
		return false
	}
	if d := m.diffHeaders(domainOf(o)); d != "" {
		t.Failf(key, "%s", d)
		return false
	}
	dm := domainOf(o)
	for k, e := range m.Entries {
		if k.Ctx != "" {
			continue
		}
		if g := dm.GetRefs(k.ID); !sameStrings(g, e.Refs) {
			t.Failf(key, "GetRefs(%q): got %q, want %q", k.ID, g, e.Refs)
			return false
		}
	}
	return t.compare(key, m, o, m.probes(t.R, 0))
}

// ---------------------------------------------------------------- C26

// store is a catalogue object and the plain keyed store that has to agree with it.
type store struct {
	m    *Model
	po   *gotext.Po
	mo   *gotext.Mo
	isMo bool
	ed   editable
	o    catalog
	pool []Key
	uniq int
	mark string // in every text it stores
}

func newStore(r *rand.Rand, pool []Key) *store {
	s := &store{m: newModel(), po: gotext.NewPo(), mo: gotext.NewMo(), pool: pool}
	s.isMo = r.Intn(4) == 0
	s.ed, s.o = s.po, s.po
	if s.isMo {
		s.ed, s.o = s.mo.GetDomain(), s.mo
	} else if r.Intn(3) == 0 {
		s.ed = s.po.GetDomain()
	}
	return s
}

// load loads another generated file.
func (s *store) load(t *T) {
	r := t.R
	f := genCatalogue(r, GenOpt{Max: 5, Refs: !s.isMo, Partial: true, Hostile: true, NoHeader: true, NoRule: true, KeyPool: s.pool})
	if r.Intn(4) == 0 {
		f.HasHeader, f.Headers, f.Rule, f.NForms = false, nil, nil, 2
	}
	tag(f, fmt.Sprintf("%sL%d.", s.mark, s.uniq))
	s.uniq++
	if s.isMo {
		b := f.RenderMO(r, nil)
		t.Logf("%sload mo %s", s.mark, quote(b))
		s.mo.Parse(b)
	} else {
		b := f.RenderPO(r)
		t.Logf("%sload po %s", s.mark, quote(b))
		s.po.Parse(b)
	}
	s.m.load(f)
	t.Count("load", 1)
}

// restore takes over what another object has serialised, as the model m2.
func (s *store) restore(t *T, bin []byte, m2 *Model) bool {
	var err error
	if s.isMo {
		err = s.mo.UnmarshalBinary(bin)
	} else {
		err = s.po.UnmarshalBinary(bin)
	}
	if err != nil {
		t.Failf("restore", "%v", err)
		return false
	}
	for _, e := range m2.Entries {
		e.Dirty = false
	}
	m2.Custom = s.m.Custom
	s.m = m2
	t.Logf("%srestored %d entries", s.mark, len(s.m.Entries))
	t.Count("restore", 1)
	return true
}

// step does something to the object and to the model. It tells what, or "" if it could not.
func (s *store) step(t *T) string {
	r, m := t.R, s.m
	k := s.pool[r.Intn(len(s.pool))]
	if ks := m.keys(); len(ks) > 0 && r.Intn(2) == 0 {
		k = ks[r.Intn(len(ks))]
	}
	val := fmt.Sprintf("%sE%d %s", s.mark, s.uniq, genText(r, 2))
	if r.Intn(8) == 0 {
		val = ""
	}
	s.uniq++
	switch x := r.Intn(20); {
	case x < 4:
		s.load(t)
		return "L"
	case x < 6:
		before := len(m.Entries)
		applyEdit(t, m, s.ed, Edit{Op: "Drop"})
		t.Count("Drop", 1)
		t.Count("dropped", int64(before-len(m.Entries)))
		t.Count("kept", int64(len(m.Entries)))
		return "D"
	case x < 9:
		refs := []string{genRef(r), genRef(r), genRef(r)}[:r.Intn(4)]
		applyEdit(t, m, s.ed, Edit{Op: "SetRefs", K: Key{"", k.ID}, Refs: refs})
		t.Count("SetRefs", 1)
		return "R"
	case x == 9:
		// restore what another object holds
		ed2, m2 := build(t, false)
		if hasLater(m2) {
			return ""
		}
		bin, err := ed2.MarshalBinary()
		if err != nil {
			t.Failf("restore", "%v", err)
			return ""
		}
		if !s.restore(t, bin, m2) {
			return ""
		}
		return "B"
	case x == 10:
		a, b := r.Intn(3), 2+r.Intn(5)
		f := func(n int) int { return (n + a) % b }
		if r.Intn(4) == 0 {
			s.ed.SetPluralResolver(nil)
			m.Custom = nil
		} else {
			s.ed.SetPluralResolver(f)
			m.Custom = f
		}
		t.Logf("%sSetPluralResolver (n+%d)%%%d", s.mark, a, b)
		t.Count("resolver", 1)
		return "P"
	}
	e := randomSet(r, m, k, val)
	if r.Intn(6) == 0 && e.Plural != "" {
		e.Plural = genText(r, 2) // another plural id than the entry has
	}
	applyEdit(t, m, s.ed, e)
	t.Count(e.Op, 1)
	return e.Op
}

func keyPool(r *rand.Rand) (pool []Key) {
	for i := 0; i < 2+r.Intn(6); i++ {
		pool = append(pool, genKey(r, &GenOpt{Hostile: true}, pool))
	}
	return pool
}

func runC26(c *C) {
	c.Cases("sequence", c.N(20000, 120000), par(), func(t *T) {
		r := t.R
		s := newStore(r, keyPool(r))
		steps := 2 + r.Intn(14)
		ops := ""
		for i := 0; i < steps && !t.Failed(); i++ {
			ops += s.step(t)
			if r.Intn(3) == 0 || i == steps-1 {
				if !t.state("store", s.m, s.o, true) {
					return
				}
			}
			t.Count("steps", 1)
		}
		t.Distinct(ops, fmt.Sprint(s.m.keys()))
		t.Sample(strings.Join(t.log, "\n"))
	})
}

// ---------------------------------------------------------------- C25

// alter changes everything in a snapshot.
func alter(t *T, all map[string]*gotext.Translation) {
	r := t.R
	for id, tr := range all {
		switch r.Intn(6) {
		case 0:
			for i := range tr.Trs {
				tr.Trs[i] = "ALTERED"
			}
			tr.Trs[7] = "ALTERED"
		case 1:
			tr.Set("ALTERED")
			tr.SetN(1, "ALTERED")
		case 2:
			for i := range tr.Trs {
				delete(tr.Trs, i)
			}
		case 3:
			tr.ID, tr.PluralID = "ALTERED", "ALTERED"
		case 4:
			tr.Trs = nil
		}
		if r.Intn(2) == 0 {
			for i := range tr.Refs {
				tr.Refs[i] = "ALTERED:1"
			}
			if cap(tr.Refs) > len(tr.Refs) {
				_ = append(tr.Refs, "ALTERED:2")
			}
		} else {
			tr.SetRefs([]string{"ALTERED:3"})
		}
		if r.Intn(3) == 0 {
			delete(all, id)
		}
	}
	all["ALTERED"] = gotext.NewTranslation()
	all[""] = gotext.NewTranslation()
}

func deepTr(tr *gotext.Translation) string {
	return fmt.Sprintf("%q %q %q %q %v", tr.ID, tr.PluralID, sortedForms(tr.Trs), tr.Refs, tr.IsStale())
}

func deepSnap(a map[string]*gotext.Translation, b map[string]map[string]*gotext.Translation) map[string]string {
	out := map[string]string{}
	for id, tr := range a {
		out[fmt.Sprintf("%q", id)] = deepTr(tr)
	}
	for c, es := range b {
		for id, tr := range es {
			out[fmt.Sprintf("%q %q", c, id)] = deepTr(tr)
		}
	}
	return out
}

func diffDeep(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return fmt.Sprintf("%s was %s, is %s", k, v, b[k])
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s = %s appeared", k, v)
		}
	}
	return ""
}

// readOps makes one random read of every kind of object.
func readOp(t *T, m *Model, ed editable, o catalog, ps []Probe) {
	r := t.R
	p := ps[r.Intn(len(ps))]
	if r.Intn(6) == 0 {
		p = Probe{[]string{"", "no such context", p.Ctx}[r.Intn(3)], []string{"no such message", p.ID}[r.Intn(2)], "p", r.Intn(5)}
	}
	d := domainOf(o)
	switch r.Intn(18) {
	case 0:
		o.Get(p.ID)
	case 1:
		o.GetN(p.ID, p.Plural, p.N)
	case 2:
		o.GetC(p.ID, p.Ctx)
	case 3:
		o.GetNC(p.ID, p.Plural, p.N, p.Ctx)
	case 4:
		o.Append([]byte("x"), p.ID)
		o.AppendC(nil, p.ID, p.Ctx)
	case 5:
		o.AppendN([]byte("x"), p.ID, p.Plural, p.N)
		o.AppendNC(nil, p.ID, p.Plural, p.N, p.Ctx, 1)
	case 6:
		o.IsTranslated(p.ID)
		o.IsTranslatedC(p.ID, p.Ctx)
	case 7:
		o.IsTranslatedN(p.ID, p.N)
		o.IsTranslatedNC(p.ID, p.N, p.Ctx)
	case 8:
		ed.GetRefs(p.ID)
	case 9:
		d.GetTranslations()
	case 10:
		d.GetCtxTranslations()
	case 11:
		b, _ := ed.MarshalText()
		scribble(b)
	case 12:
		b, _ := ed.MarshalBinary()
		scribble(b)
	case 13:
		d.Headers.Get("Language")
		d.Headers.Values("nothing")
	case 14:
		l := gotext.NewLocale("", "xx")
		if po, ok := ed.(*gotext.Po); ok {
			l.AddTranslator("d", po)
		} else if mo, ok := o.(*gotext.Mo); ok {
			l.AddTranslator("d", mo)
		}
		l.Get(p.ID)
		l.GetNDC("d", p.ID, p.Plural, p.N, p.Ctx)
		l.IsTranslatedN(p.ID, p.N)
		l.GetTranslations()
		b, _ := l.MarshalBinary()
		scribble(b)
	case 15:
		o.Get("")
		o.GetN("", "", p.N)
		o.GetC("", p.Ctx)
		o.GetNC("", "", p.N, "")
		o.IsTranslated("")
	case 16:
		o.Get(p.ID, 1, "x")
		o.GetN(p.ID, p.Plural, p.N, 1)
	case 17:
		o.GetC(p.Ctx, p.ID)
		o.GetN(p.ID, p.Plural, -1)
	}
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 'Z'
	}
}

func runC25(c *C) {
	// build makes the object; the headers of a Po object edited by hand are not what it was loaded with
	mk := func(t *T) (editable, catalog, *Model) {
		for {
			ed, m := build(t, true)
			if hasLater(m) {
				continue
			}
			// entries without any form, as in a file that was never finished
			if po, ok := ed.(*gotext.Po); ok && t.R.Intn(3) == 0 {
				cut := []string{"msgid \"cut 1\"\n", "msgctxt \"cut\"\nmsgid \"cut 1\"\n", "msgctxt \"cut\"\nmsgid \"cut 2\"\nmsgid_plural \"cuts\"\n", "#: cut.go:1\nmsgctxt \"cut\"\nmsgid \"cut 3\"\n"}
				keys := []Key{{"", "cut 1"}, {"cut", "cut 1"}, {"cut", "cut 2"}, {"cut", "cut 3"}}
				for _, i := range t.R.Perm(4)[:1+t.R.Intn(4)] {
					if m.Entries[keys[i]] != nil {
						continue
					}
					e := &Entry{Ctx: keys[i].Ctx, ID: keys[i].ID, Forms: map[int]string{}}
					if i == 2 {
						e.Plural = "cuts"
					}
					if i == 3 {
						e.Refs = []string{"cut.go:1"}
					}
					m.Entries[keys[i]] = e
					po.Parse([]byte(cut[i]))
					t.Logf("then: %q", cut[i])
					t.Count("without_forms", 1)
				}
			}
			return ed, ed, m
		}
	}
	c.Cases("snapshot", c.N(7500, 60000), par(), func(t *T) {
		r := t.R
		ed, o, m := mk(t)
		d := domainOf(o)
		txt, _ := ed.MarshalText()
		if !t.state("snapshot", m, o, true) {
			return
		}
		// altering snapshots changes nothing
		for i := 0; i < 3; i++ {
			a, b := d.GetTranslations(), d.GetCtxTranslations()
			// one entry, and no other, of this snapshot or another one
			a2, b2 := d.GetTranslations(), d.GetCtxTranslations()
			all, other := deepSnap(a, b), deepSnap(a2, b2)
			one := func(name string, tr *gotext.Translation) bool {
				tr.Refs = append(tr.Refs, "ALTERED:1", "ALTERED:2")
				if r.Intn(2) == 0 {
					tr.Set("ALTERED")
					tr.SetN(r.Intn(4), "ALTERED")
				}
				all[name] = deepTr(tr)
				t.Count("entries_altered", 1)
				if x := diffDeep(all, deepSnap(a, b)) + diffDeep(other, deepSnap(a2, b2)); x != "" {
					t.Failf("altered", "altering %s of a snapshot changed another entry: %s", name, x)
					return false
				}
				return true
			}
			if len(all) < 200 {
				for id, tr := range a {
					if r.Intn(2) == 0 && !one(fmt.Sprintf("%q", id), tr) {
						return
					}
				}
				for ctx, es := range b {
					for id, tr := range es {
						if r.Intn(2) == 0 && !one(fmt.Sprintf("%q %q", ctx, id), tr) {
							return
						}
					}
				}
			}
			alter(t, a)
			for ctx, es := range b {
				alter(t, es)
				if r.Intn(3) == 0 {
					delete(b, ctx)
				}
			}
			b["ALTERED"] = map[string]*gotext.Translation{"ALTERED": gotext.NewTranslation()}
			t.Count("snapshots_altered", 1)
		}
		if !t.state("altered", m, o, true) {
			return
		}
		if x, _ := ed.MarshalText(); !bytes.Equal(x, txt) {
			t.Failf("altered", "the export became %s, was %s", quote(x), quote(txt))
			return
		}
		// later edits, loads and drops do not change snapshots
		a, b := d.GetTranslations(), d.GetCtxTranslations()
		was := deepSnap(a, b)
		for i := 0; i < 3; i++ {
			t.editSome(m, ed, 2)
			ks := m.keys()
			if len(ks) > 0 {
				k := ks[r.Intn(len(ks))]
				applyEdit(t, m, ed, Edit{Op: "SetRefs", K: Key{"", k.ID}, Refs: []string{genRef(r)}})
			}
			if po, ok := ed.(*gotext.Po); ok && r.Intn(2) == 0 {
				f := genCatalogue(r, GenOpt{Max: 5, Refs: true, Hostile: true, NoHeader: true, KeyPool: ks})
				po.Parse(f.RenderPO(r))
				m.load(f)
			}
			if r.Intn(4) == 0 {
				applyEdit(t, m, ed, Edit{Op: "Drop"})
			}
			t.Count("snapshots_outlived", 1)
			if x := diffDeep(was, deepSnap(a, b)); x != "" {
				t.Failf("outlived", "a snapshot changed: %s", x)
				return
			}
		}
		if !t.state("outlived", m, o, true) {
			return
		}
		t.Distinct(string(txt))
		t.Sample(string(txt))
	})
	c.Cases("buffers", c.N(7500, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 8, Refs: true, Partial: true, Hostile: true, NoHeader: true, NoRule: true})
		f2 := genCatalogue(r, GenOpt{Max: 8, Refs: true, Partial: true, Hostile: true, NoHeader: true, NoRule: true, KeyPool: m.keys()})
		po, mo, p3 := gotext.NewPo(), gotext.NewMo(), gotext.NewPo()
		// one buffer for all files, as a server might use
		buf := make([]byte, 0, 1<<16)
		noRefs := newModel()
		tot := newModel()
		for _, f := range []*Model{m, f2} {
			buf = append(buf[:0], f.RenderPO(r)...)
			po.Parse(buf)
			tot.load(f)
			buf = append(buf[:0], f.RenderMO(r, nil)...)
			mo.Parse(buf)
			g := f.clone()
			for _, e := range g.Entries {
				e.Refs = nil
			}
			noRefs.load(g)
			t.Count("buffers_reused", 2)
		}
		scribble(buf)
		if !t.state("buffer", tot, po, true) || !t.state("buffer", noRefs, mo, true) {
			return
		}
		bin, _ := po.MarshalBinary()
		if err := p3.UnmarshalBinary(bin); err != nil {
			t.Failf("restore", "%v", err)
			return
		}
		scribble(bin)
		t.Count("buffers_reused", 1)
		if !t.state("buffer", tot, p3, false) || !t.state("buffer", tot, po, true) {
			return
		}
		t.Distinct(tot.headerText(), fmt.Sprint(tot.keys()))
	})
	c.Cases("reads", c.N(4500, 40000), par(), func(t *T) {
		r := t.R
		ed, o, m := mk(t)
		ps := m.probes(r, 1)
		txt, _ := ed.MarshalText()
		for i := 0; i < 3; i++ {
			for j := 0; j < 40; j++ {
				readOp(t, m, ed, o, ps)
				t.Count("reads", 1)
			}
			if !t.state("reads", m, o, true) {
				return
			}
			if x, _ := ed.MarshalText(); !bytes.Equal(x, txt) {
				t.Failf("reads", "the export became %s, was %s", quote(x), quote(txt))
				return
			}
		}
		// also what is dropped later has not changed
		applyEdit(t, m, ed, Edit{Op: "Drop"})
		if !t.state("reads-drop", m, o, true) {
			return
		}
		t.Distinct(string(txt))
	})
	c.Cases("locale", c.N(1800, 12000), par(), func(t *T) {
		r := t.R
		l := gotext.NewLocale("nowhere", "xx")
		models := map[string]*Model{}
		all := map[string]map[string]bool{}
		for _, d := range []string{"a", "b", "c"}[:1+r.Intn(3)] {
			m := genCatalogue(r, GenOpt{Max: 6, Refs: true, Partial: true, Hostile: true, NoHeader: true, NoRule: true})
			tag(m, d)
			po := gotext.NewPo()
			po.Parse(m.RenderPO(r))
			l.AddTranslator(d, po)
			models[d] = m
			for _, tr := range po.GetDomain().GetTranslations() {
				if all[tr.ID] == nil {
					all[tr.ID] = map[string]bool{}
				}
				all[tr.ID][deepTr(tr)] = true
			}
		}
		checkAll := func(what string) bool {
			got := l.GetTranslations()
			for id, tr := range got {
				if !all[id][deepTr(tr)] {
					t.Failf("locale-snapshot", "%s: %q is %s", what, id, deepTr(tr))
					return false
				}
			}
			for id := range all {
				if got[id] == nil {
					t.Failf("locale-snapshot", "%s: %q is missing", what, id)
					return false
				}
			}
			for d, m := range models {
				if !t.compare("locale-lookup", m, localeCat{l, d}, m.probes(r, 0)) {
					return false
				}
			}
			return true
		}
		if !checkAll("at first") {
			return
		}
		s := l.GetTranslations()
		old := l.GetTranslations()
		was := deepSnap(old, nil)
		alter(t, s)
		t.Count("locale_snapshots", 1)
		if !checkAll("after a snapshot was altered") {
			return
		}
		for _, d := range []string{"a", "b", "c"} {
			if models[d] != nil {
				l.Domains[d].GetDomain().Set("edited", "now")
				for k := range models[d].Entries {
					l.Domains[d].GetDomain().Set(k.ID, "now")
				}
			}
		}
		l.AddTranslator("d", gotext.NewPo())
		if x := diffDeep(was, deepSnap(old, nil)); x != "" {
			t.Failf("locale-snapshot", "a snapshot changed: %s", x)
			return
		}
		t.Eval()
		t.Distinct(fmt.Sprint(was))
	})
}

// ---------------------------------------------------------------- C30

// leaked waits for the goroutines the library started to end and reports those that stay.
func leaked(base int) string {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= base {
			return ""
		}
		runtime.Gosched()
		if i > 20 {
			time.Sleep(time.Millisecond)
		}
	}
	// Some are left. The same ones, waiting inside the library, seen over and over, will not end;
	// neither will ones that have not come to an end after a long time.
	stay := map[string]string{}
	for round := 0; round < 40; round++ {
		now := map[string]string{}
		for _, g := range parseStacks(allStacks()) {
			if !g.lib || strings.Contains(g.stack, "main.runC30") && !strings.Contains(g.stack, "created by "+pkgPath) {
				continue
			}
			now[g.id+" "+g.state] = g.stack
		}
		if round == 0 {
			stay = now
		}
		allBlocked := true
		for k := range stay {
			if _, ok := now[k]; !ok {
				delete(stay, k)
			} else if !blockedOnSync(k[strings.IndexByte(k, ' ')+1:]) {
				allBlocked = false
			}
		}
		if len(stay) == 0 {
			stay = now
			if len(now) == 0 {
				return ""
			}
		}
		if round >= 6 && allBlocked {
			break
		}
		time.Sleep(250 * time.Millisecond)
	}
	for _, s := range stay {
		return fmt.Sprintf("%d goroutines stay behind, for example:\n%s", len(stay), s)
	}
	return ""
}

// panicFS is a file system that panics when frightened.
type panicFS struct{ *faultFS }

func newPanicFS(r *rand.Rand) panicFS {
	f := &faultFS{files: map[string][]byte{}, at: -1}
	for _, dom := range []string{"d", "e"} {
		for _, lang := range []string{"de", "fr"} {
			m := genCatalogue(r, GenOpt{Max: 3, NoRule: true})
			if r.Intn(2) == 0 {
				f.files[lang+"/"+dom+".po"] = m.RenderPO(nil)
			} else {
				f.files[lang+"/LC_MESSAGES/"+dom+".mo"] = m.RenderMO(nil, nil)
			}
		}
	}
	return panicFS{f}
}

func (f panicFS) frighten(at int) { f.reset(at, 1<<30, faultKind{"panic", errStoragePanic}) }
func (f panicFS) calm()           { f.reset(-1, 0, faultKind{}) }

// panicTr is a translator of the user's, some of whose methods panic.
type panicTr struct {
	gotext.Translator
	methods uint // a bit per method
}

func (p panicTr) scare(i uint) {
	if p.methods>>i&1 == 1 {
		panic("translator")
	}
}
func (p panicTr) Get(s string, v ...interface{}) string { p.scare(0); return p.Translator.Get(s, v...) }
func (p panicTr) GetN(s, q string, n int, v ...interface{}) string {
	p.scare(1)
	return p.Translator.GetN(s, q, n, v...)
}
func (p panicTr) GetC(s, c string, v ...interface{}) string {
	p.scare(2)
	return p.Translator.GetC(s, c, v...)
}
func (p panicTr) GetNC(s, q string, n int, c string, v ...interface{}) string {
	p.scare(3)
	return p.Translator.GetNC(s, q, n, c, v...)
}
func (p panicTr) GetDomain() *gotext.Domain      { p.scare(4); return p.Translator.GetDomain() }
func (p panicTr) MarshalBinary() ([]byte, error) { p.scare(5); return p.Translator.MarshalBinary() }

func runC30(c *C) {
	base := runtime.NumGoroutine()
	settle := func(t *T, what string) bool {
		t.Count("batches", 1)
		t.Max("goroutines_seen", int64(runtime.NumGoroutine()))
		t.Eval()
		if s := leaked(base); s != "" {
			t.Failf("leak", "after %s: %s", what, s)
			return false
		}
		return true
	}
	// all of the operations of an object, none may be stuck on a lock
	after := func(t *T, ed editable, o catalog) {
		readOps := []Probe{{"", "a", "as", 0}, {"c", "a", "as", 2}}
		for i := 0; i < 12; i++ {
			readOp(t, nil, ed, o, readOps)
		}
		ed.Set("a", "b")
		ed.SetC("a", "c", "b")
		ed.SetRefs("a", nil)
		ed.DropStaleTranslations()
		t.Count("operations_after", 16)
	}
	c.Cases("rules", c.N(1500, 60000), 1, func(t *T) {
		r := t.R
		for i := 0; i < 12; i++ {
			p, _ := genRule(r, 6)
			s := p.Print(r)
			switch r.Intn(4) {
			case 0, 1:
				s = mutateRule(r, s)
			case 2:
				b := make([]byte, r.Intn(12))
				for j := range b {
					b[j] = "n%0123456789?:()<>=!&| \tx"[r.Intn(25)]
				}
				s = string(b)
			}
			t.Logf("rule %q", s)
			e, err := plurals.Compile(s)
			if err == nil && e != nil {
				t.Count("rules_accepted", 1)
				for _, n := range []uint32{0, 1, 2, 5, 1 << 31} {
					e.Eval(n)
				}
			} else {
				t.Count("rules_refused", 1)
			}
			t.Distinct(s)
		}
		settle(t, "compiling plural rules")
	})
	c.Cases("files", c.N(700, 25000), 1, func(t *T) {
		r := t.R
		po, mo := gotext.NewPo(), gotext.NewMo()
		for i := 0; i < 4; i++ {
			m := genCatalogue(r, GenOpt{Max: 5, NoRule: true, NoHeader: true})
			if r.Intn(2) == 0 {
				rule := "nplurals=2; plural=" + mutateRule(r, "(n%10==1 && n%100!=11 ? 0 : n != 1)")
				m.HasHeader, m.Headers = true, []KV{{"Plural-Forms", rule}}
			}
			a, b := m.RenderPO(r), m.RenderMO(r, nil)
			if r.Intn(2) == 0 {
				a, b = garbagePO(r), garbageMO(r)
				t.Count("refused_files", 2)
			}
			t.Logf("po %s mo %s", quote(a), quote(b))
			po.Parse(a)
			mo.Parse(b)
			po.ParseFile("/no/such/file")
			mo.ParseFile(t.Scratch)
			t.Count("files", 4)
			bin, _ := po.MarshalBinary()
			gotext.NewMo().UnmarshalBinary(bin)
			if bad := mutate(r, bin, 3); !hugeClaim(bad) {
				gotext.NewPo().UnmarshalBinary(bad)
			}
			t.Distinct(string(a))
		}
		after(t, po, po)
		after(t, mo.GetDomain(), mo)
		settle(t, "loading files")
	})
	// The same with large inputs and many of them.
	c.Cases("large", c.N(15, 300), 1, func(t *T) {
		r := t.R
		want := []int{1 << 16, 1 << 18, 1 << 20, 1<<20 + 1<<19, 3 << 20}[int(t.Index)%5]
		shape := r.Intn(3)
		var a strings.Builder
		m := newModel()
		switch shape {
		case 0: // many entries
			for i := 0; a.Len() < want; i++ {
				fmt.Fprintf(&a, "msgid \"message %d\"\nmsgid_plural \"messages %d\"\nmsgstr[0] \"eine %d\"\nmsgstr[1] \"viele %d\"\n\n", i, i, i, i)
			}
			for i, n := 0, 0; n < want; i++ {
				e := &Entry{ID: fmt.Sprintf("message %d", i), Forms: map[int]string{0: fmt.Sprintf("text %d", i)}}
				n += len(e.ID) + len(e.Forms[0])
				m.Entries[Key{"", e.ID}] = e
			}
		case 1: // one long text
			x := strings.Repeat("text ", want/5)
			fmt.Fprintf(&a, "msgid \"a\"\nmsgstr \"%s\"\n", x)
			m.Entries[Key{"", "a"}] = &Entry{ID: "a", Forms: map[int]string{0: x}}
		default: // a text of many lines
			x := strings.Repeat("line\n", want/5)
			a.WriteString("msgid \"a\"\nmsgstr \"\"\n")
			for a.Len() < want {
				a.WriteString("\"line\\n\"\n")
			}
			m.Entries[Key{"", "a"}] = &Entry{ID: "a", Forms: map[int]string{0: x}}
		}
		t.Logf("shape %d, %d bytes", shape, want)
		po, mo := gotext.NewPo(), gotext.NewMo()
		po.Parse([]byte(a.String()))
		mo.Parse(m.RenderMO(r, nil))
		root := filepath.Join(t.Scratch, fmt.Sprintf("c30-%d", t.Index))
		defer os.RemoveAll(root)
		writeFile(filepath.Join(root, "xx", "d.po"), []byte(a.String()))
		l := gotext.NewLocale(root, "xx")
		l.AddDomain("d")
		bin, _ := l.MarshalBinary()
		gotext.NewLocale("", "").UnmarshalBinary(bin)
		po.MarshalText()
		mo.GetDomain().GetTranslations()
		t.Max("max_bytes", int64(a.Len()))
		t.Count("large_files", 2)
		// a rule as long as they get
		rule := strings.Repeat("(", 60) + "n%10==1" + strings.Repeat(")", 60)
		for len(rule) < want>>10 {
			rule += " || n==" + fmt.Sprint(len(rule))
		}
		plurals.Compile(rule)
		plurals.Compile(rule + ")")
		// many domains and languages
		var langs []string
		for i := 0; i < 200; i++ {
			l.AddDomain(fmt.Sprintf("dom%d", i))
			l.AddTranslator(fmt.Sprintf("own%d", i), gotext.NewMo())
			langs = append(langs, fmt.Sprintf("l%d", i))
		}
		gotext.Configure(root, strings.Join(append(langs, "xx"), ":"), "d")
		gotext.Get("a")
		gotext.IsTranslated("a")
		if r.Intn(2) == 0 {
			after(t, po, po)
		} else {
			after(t, mo.GetDomain(), mo)
		}
		t.Distinct(fmt.Sprint(shape, want, len(a.String())), rule)
		settle(t, "large inputs")
	})
	// A resolver that panics must not keep a lock.
	c.Cases("panics", c.N(150, 3000), 1, func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 5, NoRule: true})
		m.Headers = []KV{{"Language", "xx"}}
		m.Rule, m.HasHeader = nil, true
		po := gotext.NewPo()
		po.Parse(m.RenderPO(r))
		po.SetPluralResolver(func(int) int { panic("resolver") })
		k := m.keys()[0]
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("d", po)
		for i, f := range []func(){
			func() { po.GetN(k.ID, "p", 2) },
			func() { po.GetNC(k.ID, "p", 2, k.Ctx) },
			func() { po.GetN("unknown", "p", 2) },
			func() { po.GetNC("unknown", "p", 2, "c") },
			func() { po.SetN(k.ID, "p", 2, "x") },
			func() { po.SetNC(k.ID, "p", "c", 2, "x") },
			func() { po.AppendN(nil, k.ID, "p", 2) },
			func() { po.AppendNC(nil, k.ID, "p", 2, k.Ctx) },
			func() { po.IsTranslatedN(k.ID, 2) },
			func() { po.IsTranslatedNC(k.ID, 2, k.Ctx) },
			func() { l.GetN(k.ID, "p", 2) },
			func() { l.GetNDC("d", k.ID, "p", 2, k.Ctx) },
			func() { l.IsTranslatedN(k.ID, 2) },
		} {
			func() {
				defer func() {
					if e := recover(); e != nil && e != "resolver" {
						t.Failf("panic", "call %d: %v", i, e)
					}
				}()
				f()
			}()
			t.Count("panicking_resolvers", 1)
			po.Set("a", "b")
			po.SetRefs("a", nil)
			po.Parse([]byte("msgid \"z\"\nmsgstr \"zz\"\n"))
			l.SetDomain("d")
		}
		po.SetPluralResolver(nil)
		after(t, po, po)
		settle(t, "panicking resolvers")
	})
	// A translator that panics must not keep one either.
	c.Cases("translators", c.N(150, 3000), 1, func(t *T) {
		r := t.R
		po := gotext.NewPo()
		po.Parse(genCatalogue(r, GenOpt{Max: 3, NoRule: true}).RenderPO(r))
		methods := uint(1 + r.Intn(63))
		l := gotext.NewLocale(t.Scratch, "xx")
		l.AddTranslator("p", panicTr{po, methods})
		if r.Intn(2) == 0 {
			l.AddTranslator("q", gotext.NewMo())
		}
		l.SetDomain("p")
		gotext.SetLocales([]*gotext.Locale{l})
		t.Logf("methods %b", methods)
		fns := []string{}
		for i, f := range []func(){
			func() { l.GetD("p", "a") }, func() { l.GetND("p", "a", "b", 2) },
			func() { l.GetDC("p", "a", "c") }, func() { l.GetNDC("p", "a", "b", 2, "c") },
			func() { l.IsTranslatedD("p", "a") }, func() { l.IsTranslatedND("p", "a", 2) },
			func() { l.IsTranslatedDC("p", "a", "c") }, func() { l.IsTranslatedNDC("p", "a", 2, "c") },
			func() { l.GetTranslations() }, func() { l.MarshalBinary() },
			func() { gotext.GetD("p", "a") }, func() { gotext.GetND("p", "a", "b", 2) },
			func() { gotext.GetDC("p", "a", "c") }, func() { gotext.GetNDC("p", "a", "b", 2, "c") },
			func() { gotext.IsTranslatedD("p", "a") }, func() { gotext.IsTranslatedND("p", "a", 2) },
			func() { gotext.IsTranslatedDC("p", "a", "c") }, func() { gotext.IsTranslatedNDC("p", "a", 2, "c") },
			func() { gotext.Get("a") }, func() { gotext.IsTranslated("a") },
		} {
			if r.Intn(2) == 0 {
				continue
			}
			fns = append(fns, fmt.Sprint(i))
			func() {
				defer func() {
					if e := recover(); e != nil {
						if e != "translator" {
							t.Failf("panic", "call %d: %v", i, e)
						}
						t.Count("panicking_translators", 1)
					}
				}()
				f()
			}()
			// everything else still completes
			l.AddTranslator("s", gotext.NewPo())
			l.AddDomain("none")
			l.GetD("s", "a")
			l.SetDomain("p")
			l.GetDomain()
			po.Set("a", "b")
			gotext.GetDomain()
			gotext.GetD("s", "a")
			gotext.SetLocales([]*gotext.Locale{l})
			t.Count("operations_after", 9)
		}
		after(t, po, po)
		t.Distinct(fmt.Sprint(methods), strings.Join(fns, ","))
		settle(t, "panicking translators")
	})
	// Calls that end in a panic, the caller's or the storage's, must not keep a lock either.
	c.Cases("refused", c.N(300, 4000), 1, func(t *T) {
		r := t.R
		fsys := newPanicFS(r)
		defer fsys.calm()
		locs := []*gotext.Locale{gotext.NewLocaleFS("de", fsys), gotext.NewLocaleFS("fr_FR", fsys)}
		var did []string
		refused := func(what string, f func()) {
			did = append(did, what)
			t.Logf("%s", what)
			defer func() {
				if e := recover(); e != nil {
					t.Count("panicking_calls", 1)
					if e == error(errStoragePanic) {
						t.Count("panicking_storage", 1)
					}
				}
			}()
			f()
		}
		gotext.SetLocales(locs)
		for i := 0; i < 12; i++ {
			ops := []struct {
				name string
				f    func()
			}{
				{"SetLocales(nil)", func() { gotext.SetLocales(nil) }},
				{"SetLocales of none", func() { gotext.SetLocales([]*gotext.Locale{}) }},
				{"SetStorage(nil)", func() { gotext.SetStorage(nil) }},
				{"SetLocales ending in nil", func() { gotext.SetLocales([]*gotext.Locale{locs[1], nil}) }},
				{"SetDomain", func() { gotext.SetDomain([]string{"d", "e", "f"}[r.Intn(3)]) }},
				{"GetD", func() { gotext.GetD([]string{"d", "e", "f"}[r.Intn(3)], "a") }},
				{"IsTranslatedD", func() { gotext.IsTranslatedND([]string{"d", "e", "f"}[r.Intn(3)], "a", 2) }},
				{"AddDomain", func() { locs[r.Intn(2)].AddDomain([]string{"d", "e"}[r.Intn(2)]) }},
				{"ParseFile", func() { gotext.NewPoFS(fsys).ParseFile("de/d.po") }},
				{"ParseFile", func() { gotext.NewMoFS(fsys).ParseFile("fr/d.mo") }},
				{"GetNDC with a translator that panics", func() {
					locs[0].AddTranslator("p", panicTr{gotext.NewPo(), ^uint(0)})
					gotext.GetNDC("p", "a", "b", 2, "c")
				}},
			}
			k := r.Intn(len(ops))
			fsys.frighten(r.Intn(4))
			refused(ops[k].name, ops[k].f)
			fsys.calm()
			// everything else still completes
			for _, fn := range []func(){
				func() { gotext.GetDomain() }, func() { gotext.GetLanguage() }, func() { gotext.GetLanguages() },
				func() { gotext.GetLibrary() }, func() { gotext.GetLocales() }, func() { gotext.GetStorage() },
				func() { gotext.SetDomain("d") },
				func() { gotext.Get("a") }, func() { gotext.GetND("e", "a", "b", 2) }, func() { gotext.IsTranslated("a") },
				func() { locs[0].AddDomain("d") }, func() { locs[1].GetD("d", "a") },
				func() { locs[0].SetDomain("d") }, func() { locs[1].GetTranslations() },
				func() { gotext.SetLocales(locs) },
			} {
				fn()
				t.Count("operations_after", 1)
			}
			if r.Intn(4) == 0 {
				gotext.SetLibrary(t.Scratch)
				gotext.SetLanguage("de:fr")
				gotext.Configure(t.Scratch, "fr", "d")
				gotext.SetLocales(locs)
			}
		}
		t.Distinct(strings.Join(did, ","))
		settle(t, "calls that panic")
	})
	c.Cases("package", c.N(250, 4000), 1, func(t *T) {
		r := t.R
		w := newWorld(t, false)
		defer w.close()
		writeFile(filepath.Join(w.root, "xx", "bad.po"), garbagePO(r))
		writeFile(filepath.Join(w.root, "xx", "bad.mo"), garbageMO(r))
		os.MkdirAll(filepath.Join(w.root, "xx", "dir.po"), 0o755)
		w.configure()
		for i := 0; i < 30; i++ {
			p := w.randomCall(lookupFns)
			if r.Intn(5) == 0 {
				p.Dom = []string{"bad", "dir", "missing", ""}[r.Intn(4)]
			}
			pkgLookup(p)
			p.Fn = queryFns[r.Intn(len(queryFns))]
			pkgQuery(p)
			switch r.Intn(12) {
			case 0:
				gotext.SetDomain(w.doms[r.Intn(len(w.doms))])
			case 1:
				gotext.SetLanguage(w.langs[0])
			case 2:
				gotext.SetLibrary(w.root)
			}
			t.Count("package_calls", 2)
		}
		gotext.GetLanguage()
		gotext.GetLibrary()
		gotext.GetDomain()
		t.Distinct(w.describe())
		settle(t, "package calls")
	})
}
