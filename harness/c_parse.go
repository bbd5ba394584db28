package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing/fstest"
	"unicode/utf8"

	"github.com/leonelquinteros/gotext"
)

// loadPO hands PO text to an object in one of the ways there are.
func loadPO(t *T, po *gotext.Po, data []byte) *gotext.Po {
	switch t.R.Intn(6) {
	case 0:
		f := filepath.Join(t.Scratch, fmt.Sprintf("%s-%d.po", t.Group, t.Index))
		os.WriteFile(f, data, 0o644)
		po.ParseFile(f)
		os.Remove(f)
	default:
		po.Parse(data)
	}
	return po
}

func loadMO(t *T, mo *gotext.Mo, data []byte) {
	switch t.R.Intn(6) {
	case 0:
		f := filepath.Join(t.Scratch, fmt.Sprintf("%s-%d.mo", t.Group, t.Index))
		os.WriteFile(f, data, 0o644)
		mo.ParseFile(f)
		os.Remove(f)
	default:
		mo.Parse(data)
	}
}

// newPo makes an empty object, sometimes one on a virtual file system which it does not use.
func newPo(r *rand.Rand) *gotext.Po {
	if r.Intn(6) == 0 {
		return gotext.NewPoFS(nil)
	}
	return gotext.NewPo()
}

func caseKind(m *Model) string {
	var pl, ctx, part int
	for k, e := range m.Entries {
		if e.Plural != "" {
			pl++
		}
		if k.Ctx != "" {
			ctx++
		}
		for _, f := range e.Forms {
			if f == "" {
				part++
			}
		}
	}
	return fmt.Sprintf("%d entries, %d plural, %d with context, %d empty forms, %d headers, rule %v", len(m.Entries), pl, ctx, part, len(m.Headers), m.Rule != nil)
}

// longFile loads a file of very many lines and looks into all of its parts.
func longFile(t *T) {
	r := t.R
	lines := []int{1 << 14, 1 << 15, 1 << 16, 100000, 1 << 17, 150000, 1 << 18, 200000}[int(t.Index)%8] + 100 + r.Intn(3000)
	m := newModel()
	var b strings.Builder
	n := 0
	for i := 0; n < lines; i++ {
		e := &Entry{ID: fmt.Sprintf("message %d", i), Forms: map[int]string{}}
		if r.Intn(3) == 0 {
			e.Ctx = fmt.Sprintf("context %d", r.Intn(3))
			fmt.Fprintf(&b, "msgctxt %q\n", e.Ctx)
			n++
		}
		fmt.Fprintf(&b, "msgid %q\n", e.ID)
		n++
		forms := 1
		if r.Intn(3) == 0 {
			e.Plural = fmt.Sprintf("messages %d", i)
			fmt.Fprintf(&b, "msgid_plural %q\n", e.Plural)
			n++
			forms = 2
		}
		for f := 0; f < forms; f++ {
			s := fmt.Sprintf("text %d.%d", i, f)
			word := "msgstr"
			if e.Plural != "" {
				word = fmt.Sprintf("msgstr[%d]", f)
			}
			if r.Intn(500) == 0 {
				// a text of many lines
				fmt.Fprintf(&b, "%s %q\n", word, s)
				for j := r.Intn(lines / 20); j >= 0; j-- {
					b.WriteString("\" more\\n\"\n")
					s += " more\n"
					n++
				}
			} else {
				fmt.Fprintf(&b, "%s %q\n", word, s)
			}
			n++
			e.Forms[f] = s
		}
		for j := []int{1, 1, 1, 2, 0}[r.Intn(5)]; j > 0; j-- {
			b.WriteString("\n")
			n++
		}
		if r.Intn(300) == 0 {
			for j := r.Intn(lines / 20); j >= 0; j-- {
				b.WriteString("# a comment\n")
				n++
			}
		}
		m.Entries[Key{e.Ctx, e.ID}] = e
	}
	po := newPo(r)
	loadPO(t, po, []byte(b.String()))
	t.Max("max_lines", int64(n))
	t.Logf("%d lines, %d entries", n, len(m.Entries))
	if d := diffEntries(snapshot(po.GetDomain()), m.Entries, snapOpt{noRefs: true, noDirty: true}); d != "" {
		t.Failf("long-file", "%s", d)
		return
	}
	es := m.sorted()
	for i := 0; i < 200; i++ {
		e := es[r.Intn(len(es))]
		if i == 0 {
			e = es[len(es)-1]
		}
		for _, form := range []int{0, 1} {
			want := e.Forms[form]
			if e.Plural == "" && form > 0 {
				continue
			}
			n := 1 + form
			got := po.GetN(e.ID, "p", n)
			if e.Ctx != "" {
				got = po.GetNC(e.ID, "p", n, e.Ctx)
			}
			t.Count("lookups", 1)
			if got != want {
				t.Failf("long-file", "%s with %d: got %s, want %s", Key{e.Ctx, e.ID}, n, quote([]byte(got)), quote([]byte(want)))
				return
			}
		}
	}
	t.Eval()
	t.Distinct(fmt.Sprint(lines, len(es)))
}

func init() {
	register(&Check{ID: "C01", Rule: "PRNG-made catalogues written as PO text in random legal layouts, one to three loaded into one object; every entry and many near misses asked through all lookup methods; a case counts as distinct by its file bytes and has at least one entry",
		Need: []string{"lookups", "entries", "plural_entries", "context_entries", "multi_load", "big", "sparse_entries"},
		Run: func(c *C) {
			c.Cases("layout", c.N(20000, 120000), par(), func(t *T) {
				m := newModel()
				po := newPo(t.R)
				loads := 1
				if t.R.Intn(3) == 0 {
					loads = 1 + t.R.Intn(3)
				}
				var pool []Key
				for i := 0; i < loads; i++ {
					o := genCatalogue(t.R, GenOpt{Max: 2 + t.R.Intn(14), Refs: true, Partial: true, NoHeader: true, NoRule: true, Hostile: true, Comments: true, KeyPool: pool, Big: 150, BigAt: t.Index + 1})
					for k := range o.Entries {
						pool = append(pool, k)
					}
					sortKeys(pool)
					t.Count("sparse_entries", int64(o.sparse(t.R)))
					data := o.RenderPO(t.R)
					t.Logf("file %d: %s", i, quote(data))
					loadPO(t, po, data)
					for j := range data {
						data[j] = 'X' // the input belongs to the caller again
					}
					m.load(o)
					if i > 0 {
						t.Count("multi_load", 1)
					}
					if i < loads-1 && t.R.Intn(2) == 0 && !t.compare("lookup-between", m, po, m.probes(t.R, 0)) {
						return
					}
				}
				t.countEntries(m)
				if !t.compare("lookup", m, po, m.probes(t.R, 2)) {
					return
				}
				if d := diffEntries(snapshot(po.GetDomain()), m.Entries, snapOpt{noRefs: true, noDirty: true}); d != "" {
					t.Failf("snapshot", "%s", d)
				}
				t.Distinct(string(m.RenderPO(nil)))
				t.Sample(caseKind(m))
			})
			c.Cases("lines", c.N(8, 60), par(), longFile)
		}})
	register(&Check{ID: "C02", Rule: "PRNG-made catalogues written as MO files in random legal placements (byte order, revision, table order, hash table, padding, shared and shuffled strings), one to three loaded into one object; every entry and many near misses asked",
		Need: []string{"lookups", "entries", "plural_entries", "context_entries", "multi_load", "big", "not_utf8"},
		Run: func(c *C) {
			c.Cases("layout", c.N(20000, 120000), par(), func(t *T) {
				m := newModel()
				mo := gotext.NewMo()
				loads := 1
				if t.R.Intn(3) == 0 {
					loads = 1 + t.R.Intn(3)
				}
				var pool []Key
				for i := 0; i < loads; i++ {
					o := genCatalogue(t.R, GenOpt{Max: 2 + t.R.Intn(14), Partial: true, NoHeader: true, NoRule: true, Hostile: true, KeyPool: pool, Big: 150, BigAt: t.Index + 1})
					for k := range o.Entries {
						pool = append(pool, k)
					}
					sortKeys(pool)
					if t.R.Intn(12) == 0 {
						o.raw(t.R)
						t.Count("not_utf8", 1)
					}
					data := o.RenderMO(t.R, nil)
					t.Logf("file %d: %s", i, quote(data))
					loadMO(t, mo, data)
					for j := range data {
						data[j] = 'X'
					}
					m.load(o)
					if i > 0 {
						t.Count("multi_load", 1)
					}
					if i < loads-1 && t.R.Intn(2) == 0 && !t.compare("lookup-between", m, mo, m.probes(t.R, 0)) {
						return
					}
				}
				t.countEntries(m)
				if !t.compare("lookup", m, mo, m.probes(t.R, 2)) {
					return
				}
				if d := diffEntries(snapshot(mo.GetDomain()), m.Entries, snapOpt{noRefs: true, noDirty: true}); d != "" {
					t.Failf("snapshot", "%s", d)
				}
				t.Distinct(string(m.RenderMO(nil, nil)))
				t.Sample(caseKind(m))
			})
		}})
	register(&Check{ID: "C03", Rule: "each PRNG-made catalogue is loaded once from PO text and once from MO bytes (untranslated entries left out of the MO file or written empty); all queries on both objects, and on two locales, are compared with each other; some objects have loaded other catalogues with entries in common before",
		Need: []string{"pairs", "entries", "plural_entries", "context_entries", "left_out", "listed", "big", "reloaded"},
		Run:  runC03})
	register(&Check{ID: "C05", Rule: "catalogues whose ids and contexts are prefixes, joins, splits and case variants of one another, from PO, MO, edits and several domains of a locale; each translation is unique so that a wrongly served one is recognised",
		Need: []string{"lookups", "edits", "domains"},
		Run:  runC05})
	register(&Check{ID: "C08", Rule: "PRNG-made header lines (repeated keys, colons, odd case, blanks, lines without a colon) in PO and MO files, one or two loads; every header value, the language, the plural rule in effect and the lookups are compared",
		Need: []string{"headers", "repeated", "recased"},
		Run:  runC08})
	register(&Check{ID: "C12", Rule: "byte strings: random bytes, PO token soup, mutated, truncated and spliced PO files, well-formed files with junk lines; a case is non-trivial if it holds PO syntax",
		Need: []string{"garbage", "contained", "truncated", "measured", "scaled"},
		Run:  runC12})
	register(&Check{ID: "C13", Rule: "byte strings: random bytes, and valid MO files of every placement with header fields, table fields or bytes changed, cut or extended; served text is checked against an independent reader of the same bytes",
		Need: []string{"garbage", "measured", "scaled", "served", "refused_claims", "not_mo"},
		Run:  runC13})
	register(&Check{ID: "C27", Rule: "PRNG-made PO files with zero or more reference lines per entry, in and out of contexts, with plurals, before the header; references read through queries, snapshots, text and binary round trips and after edits",
		Need: []string{"refs", "without_refs", "roundtrips", "edits", "redefined"},
		Run:  runC27})
}

func sortKeys(ks []Key) {
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].Ctx+"\x00"+ks[i].ID < ks[j].Ctx+"\x00"+ks[j].ID })
}

func (t *T) countBig(m *Model) {
	if m.Big != "" {
		t.Count("big_"+strings.ReplaceAll(m.Big, " ", "_"), 1)
		t.Count("big", 1)
	}
}

func (t *T) countEntries(m *Model) {
	t.countBig(m)
	for k, e := range m.Entries {
		t.Count("entries", 1)
		if e.Plural != "" {
			t.Count("plural_entries", 1)
		}
		if k.Ctx != "" {
			t.Count("context_entries", 1)
		}
	}
}

func runC03(c *C) {
	c.Cases("pair", c.N(20000, 100000), par(), func(t *T) {
		m := genCatalogue(t.R, GenOpt{Max: 3 + t.R.Intn(12), Partial: true, NoHeader: true, NoRule: true, Hostile: true, Refs: true, Big: 150, BigAt: t.Index + 1})
		drop := t.R.Intn(3)
		mo := m.RenderMO(t.R, func(e *Entry) bool {
			for _, f := range e.Forms {
				if f != "" {
					return false
				}
			}
			left := drop == 0 || drop == 1 && t.R.Intn(2) == 0
			if left {
				t.Count("left_out", 1)
			}
			return left
		})
		po := m.RenderPO(t.R)
		t.Logf("po: %s", quote(po))
		t.Logf("mo: %s", quote(mo))
		t.countEntries(m)
		P, M := gotext.NewPo(), gotext.NewMo()
		probes := m.probes(t.R, 2)
		if drop == 2 && t.R.Intn(4) == 0 {
			// objects that have loaded other catalogues, with entries in common, before
			for i := t.R.Intn(2); i >= 0; i-- {
				m0 := genCatalogue(t.R, GenOpt{Max: 3 + t.R.Intn(8), Partial: true, NoHeader: true, NoRule: true, Refs: true, KeyPool: m.keys()})
				po0, mo0 := m0.RenderPO(t.R), m0.RenderMO(t.R, nil)
				t.Logf("before: %s", quote(po0))
				P.Parse(po0)
				M.Parse(mo0)
				probes = append(probes, m0.probes(t.R, 1)...)
			}
			t.Count("reloaded", 1)
		}
		P.Parse(po)
		M.Parse(mo)
		comparePair(t, "po-mo", P, M, probes)
		// what they list: entries without a translation may be left out of the MO file
		sp, sm := snapshot(P.GetDomain()), snapshot(M.GetDomain())
		for k, e := range sp {
			if sm[k] == nil && drop < 2 {
				empty := true
				for _, f := range e.Forms {
					empty = empty && f == ""
				}
				if empty {
					delete(sp, k)
				}
			}
		}
		t.Count("listed", int64(len(sp)))
		if d := diffEntries(sm, sp, snapOpt{noRefs: true, noDirty: true}); d != "" {
			t.Failf("po-mo-list", "MO compared with PO: %s", d)
		}
		ph, pl, pp := headersOf(P)
		mh, ml, mp := headersOf(M)
		if pl != ml || pp != mp || len(ph) != len(mh) {
			t.Failf("po-mo-headers", "PO %q %q %q, MO %q %q %q", pl, pp, ph, ml, mp, mh)
		}
		for k := range ph {
			if !sameStrings(ph.Values(k), mh.Values(k)) {
				t.Failf("po-mo-headers", "header %q: PO %q, MO %q", k, ph.Values(k), mh.Values(k))
			}
		}
		if t.R.Intn(4) == 0 {
			mk := func(ext string, data []byte) *gotext.Locale {
				l := gotext.NewLocaleFS("xx", fstest.MapFS{"xx/LC_MESSAGES/d." + ext: {Data: data}})
				l.AddDomain("d")
				return l
			}
			lp, lm := mk("po", po), mk("mo", mo)
			comparePair(t, "po-mo-locale", localeCat{lp, "d"}, localeCat{lm, "d"}, m.probes(t.R, 0))
			t.Count("locales", 1)
		}
		t.Eval()
		t.Distinct(string(po))
		t.Sample(caseKind(m))
	})
}

// localeCat makes a domain of a locale look like a catalogue.
type localeCat struct {
	l   *gotext.Locale
	dom string
}

func (l localeCat) Get(s string, v ...interface{}) string { return l.l.GetD(l.dom, s, v...) }
func (l localeCat) GetN(s, p string, n int, v ...interface{}) string {
	return l.l.GetND(l.dom, s, p, n, v...)
}
func (l localeCat) GetC(s, c string, v ...interface{}) string { return l.l.GetDC(l.dom, s, c, v...) }
func (l localeCat) GetNC(s, p string, n int, c string, v ...interface{}) string {
	return l.l.GetNDC(l.dom, s, p, n, c, v...)
}
func (l localeCat) Append(b []byte, s string, v ...interface{}) []byte {
	return append(b, l.Get(s, v...)...)
}
func (l localeCat) AppendN(b []byte, s, p string, n int, v ...interface{}) []byte {
	return append(b, l.GetN(s, p, n, v...)...)
}
func (l localeCat) AppendC(b []byte, s, c string, v ...interface{}) []byte {
	return append(b, l.GetC(s, c, v...)...)
}
func (l localeCat) AppendNC(b []byte, s, p string, n int, c string, v ...interface{}) []byte {
	return append(b, l.GetNC(s, p, n, c, v...)...)
}
func (l localeCat) IsTranslated(s string) bool         { return l.l.IsTranslatedD(l.dom, s) }
func (l localeCat) IsTranslatedN(s string, n int) bool { return l.l.IsTranslatedND(l.dom, s, n) }
func (l localeCat) IsTranslatedC(s, c string) bool     { return l.l.IsTranslatedDC(l.dom, s, c) }
func (l localeCat) IsTranslatedNC(s string, n int, c string) bool {
	return l.l.IsTranslatedNDC(l.dom, s, n, c)
}

// comparePair asks two objects the same.
func comparePair(t *T, key string, a, b catalog, ps []Probe) bool {
	for _, p := range ps {
		t.Count("pairs", 1)
		ask := func(o catalog) []interface{} {
			if p.Ctx == "" {
				return []interface{}{o.Get(p.ID), o.GetN(p.ID, p.Plural, p.N), o.IsTranslated(p.ID), o.IsTranslatedN(p.ID, p.N)}
			}
			return []interface{}{o.GetC(p.ID, p.Ctx), o.GetNC(p.ID, p.Plural, p.N, p.Ctx), o.IsTranslatedC(p.ID, p.Ctx), o.IsTranslatedNC(p.ID, p.N, p.Ctx)}
		}
		x, y := ask(a), ask(b)
		for i := range x {
			if x[i] != y[i] {
				t.Failf(key, "%v: method %d: %q and %q", p, i, fmt.Sprint(x[i]), fmt.Sprint(y[i]))
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- C05

// tag makes every translation of the model unique.
func tag(m *Model, prefix string) {
	i := 0
	for _, e := range m.sorted() {
		for f := range e.Forms {
			if e.Forms[f] != "" {
				e.Forms[f] = fmt.Sprintf("<%s%d.%d>%s", prefix, i, f, e.Forms[f])
			}
		}
		i++
	}
}

func runC05(c *C) {
	c.Cases("contexts", c.N(10000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 4 + r.Intn(16), Hostile: true, Partial: true, NoRule: true, Big: 250, BigAt: t.Index + 1})
		tag(m, "")
		var o catalog
		var ed editable
		switch r.Intn(3) {
		case 0:
			mo := gotext.NewMo()
			data := m.RenderMO(r, nil)
			t.Logf("mo: %s", quote(data))
			mo.Parse(data)
			o, ed = mo, mo.GetDomain()
		default:
			po := gotext.NewPo()
			data := m.RenderPO(r)
			t.Logf("po: %s", quote(data))
			po.Parse(data)
			o, ed = po, po
			if r.Intn(3) == 0 {
				ed = po.GetDomain()
			}
		}
		ps := m.probes(r, 0)
		if !t.compare("lookup", m, o, ps) {
			return
		}
		ks := m.keys()
		for i := 0; i < 6; i++ {
			k := ks[r.Intn(len(ks))]
			if r.Intn(2) == 0 {
				k = genKey(r, &GenOpt{Hostile: true}, ks)
			}
			applyEdit(t, m, ed, randomSet(r, m, k, fmt.Sprintf("<edit %d>", i)))
			t.Count("edits", 1)
			ks = m.keys()
			if !t.compare("after-edit", m, o, append(m.probes(r, 0), ps...)) {
				return
			}
		}
		t.Distinct(string(m.RenderPO(nil)))
		t.Sample(caseKind(m))
	})
	c.Cases("domains", c.N(2400, 15000), par(), func(t *T) {
		r := t.R
		l := gotext.NewLocale("/nowhere", "xx")
		doms := []string{"default", "Default", "default.po", "d", "dd", "", "menu", "a/b"}
		r.Shuffle(len(doms), func(i, j int) { doms[i], doms[j] = doms[j], doms[i] })
		models := map[string]*Model{}
		pool := []Key{}
		for i, d := range doms[:2+r.Intn(4)] {
			m := genCatalogue(r, GenOpt{Max: 8, Hostile: true, Partial: true, KeyPool: pool})
			pool = append(pool, m.keys()...)
			tag(m, fmt.Sprintf("dom%d ", i))
			models[d] = m
			if r.Intn(2) == 0 {
				po := gotext.NewPo()
				po.Parse(m.RenderPO(r))
				l.AddTranslator(d, po)
			} else {
				mo := gotext.NewMo()
				mo.Parse(m.RenderMO(r, nil))
				l.AddTranslator(d, mo)
			}
			t.Count("domains", 1)
		}
		for _, d := range doms {
			m := models[d]
			if m == nil {
				m = newModel()
			}
			var ps []Probe
			for _, k := range pool {
				// a locale without the domain answers by the Germanic rule
				pl := k.ID + "s"
				if e := m.Entries[k]; e != nil && e.Plural != "" {
					pl = e.Plural
				}
				ps = append(ps, Probe{k.Ctx, k.ID, pl, r.Intn(5)})
			}
			if !t.compare("domain", m, localeCat{l, d}, ps) {
				t.Logf("domain %q", d)
				return
			}
		}
		t.Distinct(fmt.Sprint(pool))
	})
}

// Edit is one editing call.
type Edit struct {
	Op         string // Set SetN SetC SetNC SetRefs Drop
	K          Key
	Plural     string
	N          int
	Val        string
	Refs       []string
	unclonable bool
}

func (e Edit) String() string {
	return fmt.Sprintf("%s(ctx=%q id=%q plural=%q n=%d val=%q refs=%q)", e.Op, e.K.Ctx, e.K.ID, e.Plural, e.N, e.Val, e.Refs)
}

func randomSet(r *rand.Rand, m *Model, k Key, val string) Edit {
	pl := k.ID + "s"
	if e := m.Entries[k]; e != nil && e.Plural != "" {
		pl = e.Plural
	}
	op := "Set"
	if r.Intn(2) == 0 {
		op = "SetN"
	}
	if k.Ctx != "" {
		op = map[string]string{"Set": "SetC", "SetN": "SetNC"}[op]
	}
	return Edit{Op: op, K: k, Plural: pl, N: []int{0, 1, 2, 3, 5, 11, 100, r.Intn(1000)}[r.Intn(8)], Val: val}
}

// apply makes the edit in the model.
func (m *Model) apply(e Edit) {
	get := func() *Entry {
		x := m.Entries[e.K]
		if x == nil {
			x = &Entry{Ctx: e.K.Ctx, ID: e.K.ID, Forms: map[int]string{}}
			m.Entries[e.K] = x
		}
		return x
	}
	switch e.Op {
	case "Set", "SetC":
		x := get()
		x.Forms[0] = e.Val
		x.Dirty = true
	case "SetN", "SetNC":
		x := get()
		if x.Plural == "" {
			x.Plural = e.Plural
		}
		x.Forms[m.form(e.N)] = e.Val
		x.Dirty = true
	case "SetRefs":
		x := get()
		x.Refs = append([]string(nil), e.Refs...)
		x.Dirty = true
	case "Drop":
		for k, x := range m.Entries {
			if !x.Dirty {
				delete(m.Entries, k)
			}
		}
		// the header entry goes as well, but what was read from it stays
	}
}

func applyEdit(t *T, m *Model, ed editable, e Edit) {
	t.Logf("%v", e)
	switch e.Op {
	case "Set":
		ed.Set(e.K.ID, e.Val)
	case "SetN":
		ed.SetN(e.K.ID, e.Plural, e.N, e.Val)
	case "SetC":
		ed.SetC(e.K.ID, e.K.Ctx, e.Val)
	case "SetNC":
		ed.SetNC(e.K.ID, e.Plural, e.K.Ctx, e.N, e.Val)
	case "SetRefs":
		ed.SetRefs(e.K.ID, e.Refs)
	case "Drop":
		ed.DropStaleTranslations()
	}
	m.apply(e)
}

// ---------------------------------------------------------------- C08

func runC08(c *C) {
	names := append([]string{" X-A", "\tKey", " ", "Key ", "#Key", "X-A", "X-a", "x-A", "Key", "k:not", "1", "With Space", "Ünïcode-Ключ", "X\"Quote", "X\\Back", "Language-Team", "X-Language", "LanguageX", "X-Plural-Forms"}, headerNames...)
	vals := []string{"", "a", "a: b", "http://x:80/y", ":", "::", "a;b=c", "  ", "nplurals=3; plural=0", "é ü", "\\", "\"quoted\"", "%d %s", "tab\there", "a  b", "=?UTF-8?Q?x?="}
	mk := func(t *T) (raw string, hs []KV, rule *PNode, nf int) {
		r := t.R
		var lines []string
		add := func(k, v string) {
			hs = append(hs, KV{k, strings.TrimSpace(v)})
			ws := func() string { return []string{"", " ", "  ", "\t", " \t"}[r.Intn(5)] }
			lines = append(lines, k+":"+ws()+v+ws())
			t.Count("headers", 1)
		}
		n := r.Intn(10)
		var used []string
		for i := 0; i < n; i++ {
			k := names[r.Intn(len(names))]
			if len(used) > 0 && r.Intn(3) == 0 {
				k = used[r.Intn(len(used))]
				t.Count("repeated", 1)
			}
			if strings.Contains(k, ":") {
				k = k[:strings.Index(k, ":")]
			}
			used = append(used, k)
			v := vals[r.Intn(len(vals))]
			if r.Intn(3) == 0 {
				v = strings.NewReplacer("\n", " ", "\r", " ").Replace(genText(r, 4))
			}
			add(k, v)
		}
		if r.Intn(4) > 0 {
			k := recase(r, "Language")
			if k != "Language" {
				t.Count("recased", 1)
			}
			add(k, []string{"de", "pt_BR", "zh-Hans", "", "sr@latin", "de_AT.UTF-8", "pt:en", "en US", "DE", "C"}[r.Intn(10)])
		}
		nf = 2
		if r.Intn(4) > 0 {
			rule, nf = genRule(r, 5)
			k := recase(r, "Plural-Forms")
			if k != "Plural-Forms" {
				t.Count("recased", 1)
			}
			v := "nplurals=" + fmt.Sprint(nf) + "; plural=" + rule.Print(r) + ";"
			if r.Intn(5) == 0 {
				v = "plural=" + rule.Print(r) + " ;nplurals = " + fmt.Sprint(nf)
			}
			add(k, v)
		}
		switch r.Intn(200) {
		case 0:
			add("X-Long", strings.Repeat([]string{"x", "name <a@b.c>, ", "é", "\\ \""}[r.Intn(4)], 3000+r.Intn(30000)))
			t.Count("long_lines", 1)
		case 1:
			for i := 300 + r.Intn(3000); i > 0; i-- {
				add(fmt.Sprintf("X-%d", i%700), fmt.Sprint("v", i))
			}
			t.Count("many_lines", 1)
		}
		r.Shuffle(len(lines), func(i, j int) {
			lines[i], lines[j] = lines[j], lines[i]
			hs[i], hs[j] = hs[j], hs[i]
		})
		if r.Intn(4) == 0 {
			i := r.Intn(len(lines) + 1)
			lines = append(lines[:i:i], append([]string{[]string{"a line without it", "", "   "}[r.Intn(3)]}, lines[i:]...)...)
		}
		raw = strings.Join(lines, "\n")
		if r.Intn(3) > 0 || raw == "" {
			raw += "\n"
		}
		return
	}
	c.Cases("headers", c.N(20000, 100000), par(), func(t *T) {
		r := t.R
		total := newModel()
		var objs []interface{}
		po, mo := gotext.NewPo(), gotext.NewMo()
		isMo := r.Intn(3) == 0
		objs = []interface{}{po, po.GetDomain()}
		if isMo {
			objs = []interface{}{mo, mo.GetDomain()}
		}
		for i := 0; i <= r.Intn(3); i++ {
			m := genCatalogue(r, GenOpt{Max: 5, Partial: true, NoHeader: true, Hostile: true})
			raw := ""
			if m.HasHeader {
				var hs []KV
				raw, hs, m.Rule, m.NForms = mk(t)
				m.Headers = hs
				if len(hs) == 0 && !strings.Contains(raw, "line") {
					m.HasHeader, raw = false, ""
				}
			}
			// write with the raw header text
			h := *m
			var data []byte
			if isMo {
				data = renderRawHeaderMO(&h, raw, r)
				mo.Parse(data)
			} else {
				data = renderRawHeaderPO(&h, raw, r)
				po.Parse(data)
			}
			t.Logf("file %d: %s", i, quote(data))
			total.load(m)
		}
		for _, o := range objs {
			if d := total.diffHeaders(o); d != "" {
				t.Failf("headers", "%s", d)
				return
			}
		}
		var o catalog = po
		if isMo {
			o = mo
		}
		t.compare("lookup", total, o, total.probes(r, 2))
		t.Distinct(total.headerText())
		t.Sample(total.headerText())
	})
}

func renderRawHeaderPO(m *Model, raw string, r *rand.Rand) []byte {
	h := *m
	h.HasHeader = false
	w := &poWriter{r: r, crlf: r.Intn(4) == 0}
	if raw != "" {
		w.str("msgid", "")
		w.str("msgstr", raw)
		w.eol()
	}
	return append([]byte(w.b.String()), h.RenderPO(r)...)
}

func renderRawHeaderMO(m *Model, raw string, r *rand.Rand) []byte {
	h := m.clone()
	h.HasHeader = false
	if raw != "" {
		h.Entries[Key{"", ""}] = &Entry{Forms: map[int]string{0: raw}}
	}
	return h.RenderMO(r, nil)
}

// ---------------------------------------------------------------- C12

// allocated measures the bytes a call allocates; nothing else may run meanwhile.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// usable checks that an object works after having been given anything.
func usable(t *T, o catalog, ed editable, parse func(b []byte), render func(m *Model) []byte) {
	m := genCatalogue(t.R, GenOpt{Max: 6, Hostile: true, Partial: true})
	tag(m, "")
	data := render(m)
	t.Logf("then a good file: %s", quote(data))
	parse(data)
	var ps []Probe
	for _, e := range m.sorted() {
		pl := e.Plural
		if pl == "" {
			pl = e.ID + "s"
		}
		for _, n := range []int{0, 1, 2, 5, 11, 100} {
			ps = append(ps, Probe{e.Ctx, e.ID, pl, n})
		}
	}
	// entries without a plural may fall back to whatever the caller says, which the model knows
	if !t.compare("after-garbage", m, o, ps) {
		return
	}
	for i := 0; i < 4; i++ {
		k := m.keys()[t.R.Intn(len(m.Entries))]
		applyEdit(t, m, ed, randomSet(t.R, m, k, fmt.Sprintf("edit%d", i)))
	}
	t.compare("edit-after-garbage", m, o, ps)
	ed.SetRefs("new one", []string{"a:1"})
	if !sameStrings(ed.GetRefs("new one"), []string{"a:1"}) {
		t.Failf("refs-after-garbage", "references are not kept")
	}
	if _, err := ed.MarshalText(); err != nil {
		t.Failf("export-after-garbage", "%v", err)
	}
	if _, err := ed.MarshalBinary(); err != nil {
		t.Failf("binary-after-garbage", "%v", err)
	}
	ed.DropStaleTranslations()
}

var soup = []string{"msgid", "msgid \"\"", "msgid \"a\"", "msgid \"b\"", "msgid_plural", "msgid_plural \"as\"", "msgstr", "msgstr \"x\"", "msgstr \"", "msgstr[", "msgstr[]", "msgstr[0]", "msgstr[0] \"f0\"", "msgstr[1] \"f1\"", "msgstr[2 \"f\"", "msgstr[-1] \"neg\"", "msgstr[99999999999999999999] \"big\"", "msgstr[2147483647] \"big\"", "msgstr[x] \"x\"", "msgctxt", "msgctxt \"c\"", "msgctxt \"", "\"", "\"\"", "\"str\"", "\"bad \\q escape\"", "\"bad \\x\"", "\"\\\"", "\"\\u12\"", "\"\\400\"", "#", "#:", "#: a:1 b:2", "#:x", "#, fuzzy", "#~ msgid \"o\"", "plain junk", "\x00", "\xff\xfe", "\ufeff", "msgidx", "msgstrfoo \"x\"", "msgid'a'", "msgid `a`", "msgid \"a\" \"b\"", "msgid \"Plural-Forms: nplurals=2; plural=n>1;\\n\"", "\"Plural-Forms: nplurals=2; plural=(((\\n\"", "\"Plural-Forms: nplurals=99999999999999999999; plural=n%0\\n\"", "\"Plural-Forms: plural=n==1?0:99999999999999\\n\"", "\"Language: xx\\n\"", "\":\\n\"", "", " ", "\t", "\r", "msgstr \"\"", "domain \"x\"", "\"Plural-Forms: nplurals=-1; plural=;\\n\"", "\"Plural-Forms: plural=n%10000000000>3?1:0;\\n\""}

func genSoup(r *rand.Rand, n int) []byte {
	var b strings.Builder
	for i := 0; i < n; i++ {
		s := soup[r.Intn(len(soup))]
		if r.Intn(12) == 0 && len(s) > 0 {
			s = s[:r.Intn(len(s))]
		}
		b.WriteString(s)
		if r.Intn(15) > 0 {
			b.WriteString([]string{"\n", "\n", "\r\n", "\n\n"}[r.Intn(4)])
		}
	}
	return []byte(b.String())
}

func mutate(r *rand.Rand, b []byte, k int) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i < k && len(b) > 0; i++ {
		p := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[p] ^= 1 << uint(r.Intn(8))
		case 1:
			b[p] = byte(r.Intn(256))
		case 2:
			b = append(b[:p], b[p+1:]...)
		case 3:
			b = append(b[:p], append([]byte{"\"\\\n[]#:0% "[r.Intn(10)]}, b[p:]...)...)
		case 4:
			q := p + r.Intn(len(b)-p)
			b = append(b[:p], b[q:]...)
		case 5:
			q := p + r.Intn(len(b)-p)
			if q-p > 200 {
				q = p + 200
			}
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 6:
			b = append(b[:p], append([]byte(soup[r.Intn(len(soup))]), b[p:]...)...)
		}
	}
	return b
}

func garbagePO(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		b := make([]byte, r.Intn(600))
		r.Read(b)
		return b
	case 1:
		return genSoup(r, 1+r.Intn(60))
	case 2:
		m := genCatalogue(r, GenOpt{Max: 6, Refs: true, Comments: true, NoRule: true})
		b := m.RenderPO(r)
		return b[:r.Intn(len(b)+1)]
	case 3:
		m := genCatalogue(r, GenOpt{Max: 6, Refs: true, Comments: true, NoRule: true})
		return append(mutate(r, m.RenderPO(r), r.Intn(3)), genSoup(r, r.Intn(10))...)
	}
	m := genCatalogue(r, GenOpt{Max: 8, Refs: true, Comments: true, NoRule: true})
	return mutate(r, m.RenderPO(r), 1+r.Intn(12))
}

// wellFormed looks at what arbitrary bytes have left in a catalogue: it must be a catalogue, so that
// its exports can be read again.
func (t *T) wellFormed(d *gotext.Domain) {
	snap := snapshot(d)
	for k, e := range snap {
		for i := range e.Forms {
			if i < 0 {
				t.Failf("negative-form", "entry %q has a form number %d", k, i)
			}
		}
	}
	txt, err := d.MarshalText()
	if err != nil {
		t.Failf("export-of-garbage", "%v", err)
		return
	}
	complete := true // a plural message without any form is exported as it was read
	for _, e := range snap {
		complete = complete && (e.Plural == "" || len(e.Forms) > 0)
	}
	if _, err := readPO(txt, true); err != nil && complete {
		t.Failf("export-of-garbage", "the export is not PO: %v\n%s", err, quote(txt))
		return
	}
	for k, e := range snap {
		valid := utf8.ValidString(k.Ctx + k.ID + e.Plural)
		for _, f := range e.Forms {
			valid = valid && utf8.ValidString(f)
		}
		if !valid {
			return
		}
		if k.ID == "" { // a context for nothing is not exported
			delete(snap, k)
		}
		for i := range e.Forms {
			if e.Plural == "" && i > 0 { // forms without a plural id make no message
				delete(e.Forms, i)
			}
		}
	}
	po := gotext.NewPo()
	po.Parse(txt)
	if msg := diffEntries(snapshot(po.GetDomain()), snap, snapOpt{noDirty: true, noEmpty: true}); msg != "" {
		t.Failf("export-of-garbage", "the export, loaded, differs: %s\n%s", msg, quote(txt))
	}
	t.Count("exports_of_garbage", 1)
	t.Count("entries_from_garbage", int64(len(snap)))
}

// exercise calls everything once so that bad state shows.
func exercise(ed catalog, d *gotext.Domain) {
	for k, e := range snapshot(d) {
		for _, n := range []int{0, 1, 2, 7, 1 << 31, 1<<32 - 1, -1} {
			ed.Get(k.ID)
			ed.GetN(k.ID, e.Plural, n)
			ed.GetC(k.ID, k.Ctx)
			ed.GetNC(k.ID, e.Plural, n, k.Ctx)
			ed.IsTranslated(k.ID)
			ed.IsTranslatedN(k.ID, n)
			ed.IsTranslatedC(k.ID, k.Ctx)
			ed.IsTranslatedNC(k.ID, n, k.Ctx)
		}
		d.GetRefs(k.ID)
	}
	d.MarshalText()
	d.MarshalBinary()
}

func runC12(c *C) {
	junkLines := []string{"this is not PO", "msg id \"x\"", "mgsid \"typo\"", "\x00\x01\x02", "\xff\xfe\xfd", "= ; :", "'single'", "<xml>", "domain \"other\"", "\"unterminated", "[0] \"x\"", "id \"x\"", "MSGID \"upper\"", "%", "\\", "\ufeff", "a\"b\"", ">>>>>>> conflict"}
	c.Cases("garbage", c.N(18000, 200000), par(), func(t *T) {
		po := gotext.NewPo()
		for i := 0; i <= t.R.Intn(2); i++ {
			b := garbagePO(t.R)
			t.Logf("garbage: %s", quote(b))
			po.Parse(b)
			t.Count("garbage", 1)
			t.Distinct(string(b))
		}
		exercise(po, po.GetDomain())
		t.wellFormed(po.GetDomain())
		usable(t, po, po, po.Parse, func(m *Model) []byte { return m.RenderPO(t.R) })
		t.Sample("garbage then a good file")
	})
	c.Cases("junk-lines", c.N(8000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 3 + r.Intn(8), Hostile: true, Partial: true, NoRule: true, Big: 150, BigAt: t.Index + 1})
		t.countBig(m)
		data := string(m.RenderPO(r))
		lines := strings.SplitAfter(data, "\n")
		var out []string
		for _, l := range lines {
			for r.Intn(4) == 0 {
				junk := junkLines[r.Intn(len(junkLines))]
				if r.Intn(1000) == 0 {
					junk = strings.Repeat("no syntax ", size(r)/10)
					t.Count("long_junk", 1)
				}
				out = append(out, junk+"\n")
				t.Count("contained", 1)
			}
			out = append(out, l)
		}
		bad := strings.Join(out, "")
		t.Logf("file: %s", quote([]byte(bad)))
		po := gotext.NewPo()
		po.Parse([]byte(bad))
		t.compare("junk-lines", m, po, m.probes(r, 1))
		t.Distinct(bad)
	})
	c.Cases("truncated", c.N(8000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 3 + r.Intn(8), Hostile: true, Big: 150, BigAt: t.Index + 1})
		t.countBig(m)
		// no message is a prefix of another one
		uniq := newModel()
		uniq.HasHeader, uniq.Headers, uniq.Rule, uniq.NForms = true, m.Headers, m.Rule, m.NForms
		for i, e := range m.sorted() {
			e.ID = fmt.Sprintf("%02d%s", i, e.ID)
			uniq.Entries[Key{e.Ctx, e.ID}] = e
		}
		w := &poWriter{r: r}
		w.str("msgid", "")
		w.str("msgstr", uniq.headerText())
		w.eol()
		type span struct {
			e   *Entry
			end int
		}
		var spans []span
		es := uniq.sorted()
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		hdrEnd := w.b.Len()
		for _, e := range es {
			w.entry(e)
			spans = append(spans, span{e, w.b.Len()})
		}
		full := w.b.String()
		cutAt := hdrEnd + r.Intn(len(full)-hdrEnd+1)
		t.Logf("cut file: %s", quote([]byte(full[:cutAt])))
		po := gotext.NewPo()
		po.Parse([]byte(full[:cutAt]))
		got := snapshot(po.GetDomain())
		kept := newModel()
		kept.HasHeader, kept.Headers, kept.Rule, kept.NForms = true, m.Headers, m.Rule, m.NForms
		for _, s := range spans {
			if s.end > cutAt {
				break
			}
			k := Key{s.e.Ctx, s.e.ID}
			if d := diffEntries(map[Key]*Entry{k: got[k]}, map[Key]*Entry{k: s.e}, snapOpt{noRefs: true, noDirty: true}); got[k] == nil || d != "" {
				t.Failf("truncated", "complete entry %q before the cut: %s", k, d)
				return
			}
			t.Count("truncated", 1)
			kept.Entries[k] = s.e
		}
		if d := kept.diffHeaders(po); d != "" {
			t.Failf("truncated-header", "the header before the cut: %s", d)
			return
		}
		if len(kept.Entries) > 0 {
			t.compare("truncated-lookup", kept, po, kept.probes(r, 1))
		}
		t.Eval()
		t.Distinct(full[:cutAt])
	})
	// time in proportion: distinct entries, at one size and at a multiple of it
	c.Cases("scaling", 2*len(poUnits), 1, func(t *T) {
		kind := int(t.Index) / 2 % len(poUnits)
		t.scaling("po", kind, func(b []byte) { gotext.NewPo().Parse(b) }, func(n int) []byte {
			b := []byte("msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n")
			for i := 0; i < n; i++ {
				b = append(b, poUnits[kind](i)...)
			}
			return b
		})
	})
	// memory and time in proportion to the length, alone in the process
	c.Cases("proportion", c.N(120, 600), 1, func(t *T) {
		r := t.R
		unit := [][]byte{[]byte("\"abc\"\n"), []byte("#: a:1\n"), []byte("msgid \"x\"\n"), []byte("msgctxt \"x\"\n"), []byte("msgstr[1] \"x\"\n"), []byte("\\"), []byte("\""), []byte("# c\n"), []byte("("), []byte("\n"), []byte("n==1?0:"), []byte("msgid_plural \"p\"\n"), []byte("X: y\\n"), []byte("[")}
		pre := []string{"", "msgid \"\"\nmsgstr \"\"\n", "msgid \"a\"\nmsgstr \"", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"", "msgctxt \"", "#"}
		var b []byte
		b = append(b, pre[r.Intn(len(pre))]...)
		u := unit[r.Intn(len(unit))]
		size := 20000 << uint(r.Intn(4))
		mixed := r.Intn(3) == 0
		for len(b) < size {
			if mixed {
				u = unit[r.Intn(len(unit))]
			}
			b = append(b, u...)
		}
		b = append(b, "\"\nmsgstr \"end\"\n"...)
		if r.Intn(4) == 0 {
			b = nil
			for len(b) < size {
				b = append(b, genSoup(r, 50)...)
			}
		}
		t.Logf("%d bytes: %s...", len(b), quote(b[:200]))
		po := gotext.NewPo()
		cpu := cpuSeconds()
		n := allocated(func() { po.Parse(b) })
		if used := cpuSeconds() - cpu; used > 20 {
			t.Failf("time", "loading %d bytes took %.0f s of processor time", len(b), used)
		}
		t.Max("bytes_allocated_per_input_byte_max", int64(n)/int64(len(b)))
		t.Count("measured", 1)
		if n > uint64(len(b))*poAllocFactor+(8<<20) {
			t.Failf("memory", "loading %d bytes allocated %d", len(b), n)
		}
		t.Eval()
		t.Distinct(string(b[:100]), fmt.Sprint(len(b)))
	})
}

const (
	poAllocFactor = 200
	moAllocFactor = 200
)

// poUnits make the i-th piece of a large file.
var poUnits = []func(i int) string{
	func(i int) string { return fmt.Sprintf("msgid \"message %d\"\nmsgstr \"text %d\"\n\n", i, i) },
	func(i int) string {
		return fmt.Sprintf("msgid \"%d\"\nmsgid_plural \"%ds\"\nmsgstr[0] \"a\"\nmsgstr[1] \"b\"\n\n", i, i)
	},
	func(i int) string {
		return fmt.Sprintf("msgctxt \"c%d\"\nmsgid \"same\"\nmsgstr \"text %d\"\n\n", i, i)
	},
	func(i int) string { return fmt.Sprintf("msgctxt \"c\"\nmsgid \"m%d\"\nmsgstr \"\"\n\"text\"\n\n", i) },
	func(i int) string {
		return fmt.Sprintf("#: file%d.go:%d other.go:%d\nmsgid \"m\"\nmsgstr \"text\"\n\n", i, i, i)
	},
	func(i int) string { return fmt.Sprintf("#: file%d.go:%d\n", i, i) },
	func(i int) string { return fmt.Sprintf("# comment %d\n", i) },
	func(i int) string {
		return fmt.Sprintf("#. note %d\n#, fuzzy\n#| msgid \"old\"\nmsgid \"m%d\"\nmsgstr \"x\"\n", i, i)
	},
	func(i int) string {
		if i == 0 {
			return "msgid \"long\"\nmsgstr \"\"\n"
		}
		return fmt.Sprintf("\"line %d\\n\"\n", i)
	},
	func(i int) string {
		if i == 0 {
			return "msgid \"\"\n"
		}
		return fmt.Sprintf("\"line %d\\n\"\n", i)
	},
	func(i int) string { return fmt.Sprintf("msgstr[%d] \"x\"\n", i) },
	func(i int) string { return fmt.Sprintf("\"X-Header-%d: value\\n\"\n", i) },
	func(i int) string { return "\"X-Same: value\\n\"\n" },
	func(i int) string { return fmt.Sprintf("#~ msgid \"old %d\"\n#~ msgstr \"x\"\n\n", i) },
	func(i int) string { return fmt.Sprintf("junk %d\n", i) },
	func(i int) string { return "\\\"\\\\\\n\\t\\101" },
}

// scaling compares the processor time for one size with that for sixteen times the size.
func (t *T) scaling(what string, kind int, load func([]byte), make func(n int) []byte) {
	const small, factor = 4000, 16
	cost := func(b []byte, times int) float64 {
		runtime.GC()
		best := 0.0
		for i := 0; i < 3; i++ {
			cpu := cpuSeconds()
			for j := 0; j < times; j++ {
				load(b)
			}
			if d := cpuSeconds() - cpu; i == 0 || d < best {
				best = d
			}
		}
		return best / float64(times)
	}
	a, b := make(small), make(small*factor)
	x, y := cost(a, 4), cost(b, 1)
	t.Logf("%s, kind %d: %d bytes take %.6f s, %d bytes %.6f s", what, kind, len(a), x, len(b), y)
	t.Count("scaled", 1)
	// a linear load takes some sixteen times as long (caches and collections add to that), a quadratic one 256 times
	if y > 0.5 && y > 100*x {
		t.Failf("scaling", "%s, kind %d: %d bytes take %.6f s of processor time, %d bytes %.6f s", what, kind, len(a), x, len(b), y)
	}
	t.Eval()
	t.Distinct(what, fmt.Sprint(kind, t.Index))
}

// ---------------------------------------------------------------- C13

// readMO is an independent reader: the pairs of strings which lie inside of the file.
func readMO(b []byte) (pairs map[string][]string, claims bool, inSum int) {
	pairs = map[string][]string{}
	if len(b) < 28 {
		return
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch binary.LittleEndian.Uint32(b) {
	case 0x950412de:
	case 0xde120495:
		bo = binary.BigEndian
	default:
		return
	}
	n, io, so := uint64(bo.Uint32(b[8:])), uint64(bo.Uint32(b[12:])), uint64(bo.Uint32(b[16:]))
	str := func(tab, i uint64) (string, bool) {
		o := tab + 8*i
		if o+8 > uint64(len(b)) {
			return "", false
		}
		l, p := uint64(bo.Uint32(b[o:])), uint64(bo.Uint32(b[o+4:]))
		if p+l > uint64(len(b)) {
			return "", false
		}
		inSum += int(l)
		return string(b[p : p+l]), true
	}
	for i := uint64(0); i < n; i++ {
		if i*8 > uint64(len(b)) {
			claims = true
			return
		}
		k, ok1 := str(io, i)
		v, ok2 := str(so, i)
		if ok1 && ok2 {
			pairs[k] = append(pairs[k], v)
		} else {
			claims = true
		}
	}
	return
}

// notMO tells why a file must be refused whatever else is in it.
func notMO(b []byte) string {
	if len(b) < 28 {
		return "less than the header"
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch binary.LittleEndian.Uint32(b) {
	case 0x950412de:
	case 0xde120495:
		bo = binary.BigEndian
	default:
		return "another magic number"
	}
	if rev := bo.Uint32(b[4:]); rev>>16 > 1 {
		return fmt.Sprintf("revision %#x", rev)
	}
	return ""
}

func garbageMO(r *rand.Rand) []byte {
	if r.Intn(12) == 0 {
		b := make([]byte, r.Intn(200))
		r.Read(b)
		if len(b) >= 4 && r.Intn(2) == 0 {
			copy(b, []byte{0xde, 0x12, 0x04, 0x95})
		}
		return b
	}
	m := genCatalogue(r, GenOpt{Max: 1 + r.Intn(8), Hostile: true, Partial: true, NoRule: true})
	tag(m, "")
	b := m.RenderMO(r, nil)
	var bo binary.ByteOrder = binary.LittleEndian
	if binary.LittleEndian.Uint32(b) != 0x950412de {
		bo = binary.BigEndian
	}
	odd := func() uint32 {
		L := uint32(len(b))
		return []uint32{0, 1, 7, 8, 27, 28, L - 1, L, L + 1, L - 8, 1 << 16, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 8, 1<<29 + 1, r.Uint32(), uint32(r.Intn(len(b))), 500000000}[r.Intn(20)]
	}
	if r.Intn(12) == 0 { // a revision to come, or another kind of file
		switch r.Intn(3) {
		case 0:
			bo.PutUint32(b[4:], uint32(2+r.Intn(5))<<16|uint32(r.Intn(3)))
		case 1:
			bo.PutUint32(b[4:], r.Uint32())
		default:
			switch r.Intn(4) {
			case 0: // its bytes in another order
				r.Shuffle(4, func(i, j int) { b[i], b[j] = b[j], b[i] })
			case 1: // moved by some bytes
				n := 1 + r.Intn(3)
				copy(b[n:4], append([]byte(nil), b[:4-n]...))
				r.Read(b[:n])
			case 2:
				b[r.Intn(4)] = byte(r.Intn(256))
			default:
				b[r.Intn(4)] ^= 1 << uint(r.Intn(8))
			}
		}
		return b
	}
	for i := 0; i <= r.Intn(3); i++ {
		switch r.Intn(6) {
		case 0, 1: // header field
			bo.PutUint32(b[4+4*r.Intn(6):], odd())
		case 2, 3, 4: // table field
			n, o := int(bo.Uint32(b[8:])), int(bo.Uint32(b[12+4*r.Intn(2):]))
			if n > 0 && n < 100000 && o > 0 && o+8*n <= len(b) {
				p := o + 4*r.Intn(2*n)
				if r.Intn(3) == 0 { // off by little
					bo.PutUint32(b[p:], bo.Uint32(b[p:])+uint32(r.Intn(5)-2))
				} else {
					bo.PutUint32(b[p:], odd())
				}
			}
		case 5:
			switch r.Intn(3) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
				if len(b) < 28 {
					return b
				}
			case 1:
				b = mutate(r, b, 1+r.Intn(3))
				if len(b) < 28 {
					return b
				}
			default:
				b = append(b, make([]byte, r.Intn(100))...)
			}
		}
	}
	return b
}

func runC13(c *C) {
	judge := func(t *T, b []byte, measure bool) {
		pairs, claims, in := readMO(b)
		if claims {
			t.Count("refused_claims", 1)
		}
		mo := gotext.NewMo()
		if measure {
			n := allocated(func() { mo.Parse(b) })
			t.Count("measured", 1)
			limit := uint64(len(b)+in)*moAllocFactor + (1 << 20)
			t.Max("bytes_allocated_per_input_byte_max", int64(n)/int64(len(b)+in+1000))
			if n > limit {
				t.Failf("memory", "loading %d bytes (%d in strings) allocated %d", len(b), in, n)
				return
			}
		} else {
			mo.Parse(b)
		}
		if why := notMO(b); why != "" {
			t.Count("not_mo", 1)
			if n := len(snapshot(mo.GetDomain())); n > 0 || len(mo.Headers) > 0 {
				t.Failf("not-mo", "%d entries and headers %q from a file with %s", n, mo.Headers, why)
				return
			}
		}
		// whatever is served must be in the file
		texts := map[string]map[string]bool{} // key -> joined translations
		for k, vs := range pairs {
			texts[k] = map[string]bool{}
			for _, v := range vs {
				texts[k][v] = true
			}
		}
		for k, e := range snapshot(mo.GetDomain()) {
			t.Count("served", 1)
			if !servedFromFile(k, e, texts) {
				t.Failf("invented", "entry %q plural %q forms %q is not in the file", k, e.Plural, e.Forms)
				return
			}
		}
		exercise(mo, mo.GetDomain())
		usable(t, mo, mo.GetDomain(), mo.Parse, func(m *Model) []byte { return m.RenderMO(t.R, nil) })
		t.Distinct(string(b))
	}
	c.Cases("garbage", c.N(18000, 200000), par(), func(t *T) {
		b := garbageMO(t.R)
		t.Logf("garbage: %s (%d bytes)", quote(b), len(b))
		t.Count("garbage", 1)
		judge(t, b, false)
		t.Sample("a changed MO file, then a good one")
	})
	c.Cases("proportion", c.N(1500, 20000), 1, func(t *T) {
		b := garbageMO(t.R)
		t.Logf("garbage: %s (%d bytes)", quote(b), len(b))
		judge(t, b, true)
	})
	c.Cases("scaling", 2*len(moUnits), 1, func(t *T) {
		kind := int(t.Index) / 2 % len(moUnits)
		t.scaling("mo", kind, func(b []byte) { gotext.NewMo().Parse(b) }, func(n int) []byte {
			m := newModel()
			m.HasHeader, m.Headers = true, []KV{{"Plural-Forms", "nplurals=2; plural=n!=1;"}}
			m.Rule = ParseC("n!=1")
			for i := 0; i < n; i++ {
				e := moUnits[kind](i)
				m.Entries[Key{e.Ctx, e.ID}] = e
			}
			return m.RenderMO(nil, nil)
		})
	})
}

// moUnits make the i-th entry of a large file.
var moUnits = []func(i int) *Entry{
	func(i int) *Entry {
		return &Entry{ID: fmt.Sprint("m", i), Forms: map[int]string{0: fmt.Sprint("t", i)}}
	},
	func(i int) *Entry {
		return &Entry{ID: fmt.Sprint("m", i), Plural: "ms", Forms: map[int]string{0: "a", 1: "b"}}
	},
	func(i int) *Entry { return &Entry{Ctx: fmt.Sprint("c", i), ID: "same", Forms: map[int]string{0: "t"}} },
	func(i int) *Entry { return &Entry{Ctx: "c", ID: fmt.Sprint("m", i), Forms: map[int]string{0: "t"}} },
}

// servedFromFile tells whether some pair of the file gives this entry.
func servedFromFile(k Key, e *Entry, texts map[string]map[string]bool) bool {
	for key, vals := range texts {
		ctx, id := "", key
		if p := strings.SplitN(key, "\x04", 2); len(p) > 1 {
			ctx, id = p[0], p[1]
		}
		plural := ""
		if i := strings.IndexByte(id, 0); i >= 0 {
			id, plural = id[:i], id[i+1:]
		}
		if ctx != k.Ctx || id != k.ID || plural != e.Plural {
			continue
		}
		for v := range vals {
			forms := strings.Split(v, "\x00")
			ok := len(forms) == len(e.Forms)
			for i, f := range forms {
				if e.Forms[i] != f {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C27

func runC27(c *C) {
	c.Cases("refs", c.N(15000, 80000), par(), func(t *T) {
		r := t.R
		m := newModel()
		po := gotext.NewPo()
		for i := 0; i <= r.Intn(2); i++ {
			opt := GenOpt{Max: 3 + r.Intn(10), Refs: true, Partial: true, Hostile: true, NoHeader: true, Big: 150, BigAt: t.Index + 1}
			if i > 0 && r.Intn(2) == 0 {
				opt.KeyPool = m.keys() // entries that are there already
			}
			o := genCatalogue(r, opt)
			for _, e := range o.sorted() {
				if e.Plural != "" && r.Intn(8) == 0 {
					e.Forms = map[int]string{} // not a single msgstr
				}
			}
			for k := range o.Entries {
				if e := m.Entries[k]; e != nil && len(e.Refs) > 0 {
					t.Count("redefined", 1)
				}
			}
			if o.HasHeader && r.Intn(3) == 0 {
				o.HdrRefs = []string{"header.go:1"}
			}
			data := o.RenderPO(r)
			t.Logf("file: %s", quote(data))
			po.Parse(data)
			m.load(o)
		}
		for i := 0; i < r.Intn(4); i++ {
			ks := m.keys()
			k := ks[r.Intn(len(ks))]
			e := Edit{Op: "SetRefs", K: Key{"", k.ID}, Refs: []string{genRef(r), genRef(r)}[:r.Intn(3)]}
			if r.Intn(2) == 0 {
				e = randomSet(r, m, k, "edited")
			}
			applyEdit(t, m, po, e)
			t.Count("edits", 1)
		}
		check := func(what string, d *gotext.Domain) bool {
			got := snapshot(d)
			for k, e := range m.Entries {
				if k.ID == "" {
					continue
				}
				if len(e.Refs) > 0 {
					t.Count("refs", 1)
				} else {
					t.Count("without_refs", 1)
				}
				g := got[k]
				if g == nil {
					t.Failf("refs", "%s: entry %q is missing", what, k)
					return false
				}
				if !sameStrings(g.Refs, e.Refs) {
					t.Failf("refs", "%s: entry %q has refs %q, want %q", what, k, g.Refs, e.Refs)
					return false
				}
				if k.Ctx == "" && !sameStrings(d.GetRefs(k.ID), e.Refs) {
					t.Failf("refs", "%s: GetRefs(%q) = %q, want %q", what, k.ID, d.GetRefs(k.ID), e.Refs)
					return false
				}
			}
			t.Eval()
			return true
		}
		if !check("loaded", po.GetDomain()) {
			return
		}
		txt, err := po.MarshalText()
		if err != nil {
			t.Failf("export", "%v", err)
			return
		}
		t.Logf("exported: %s", quote(txt))
		p2 := gotext.NewPo()
		p2.Parse(txt)
		bin, err := po.MarshalBinary()
		if err != nil {
			t.Failf("binary", "%v", err)
			return
		}
		p3 := gotext.NewPo()
		if err := p3.UnmarshalBinary(bin); err != nil {
			t.Failf("binary", "%v", err)
			return
		}
		t.Count("roundtrips", 2)
		_ = check("text round trip", p2.GetDomain()) && check("binary round trip", p3.GetDomain())
		t.Distinct(string(txt))
		t.Sample(caseKind(m))
	})
}
