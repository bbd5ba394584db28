package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"
	"time"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C04", Rule: "lookups of messages without a usable translation through every method of catalogues, locales and the package (also in new processes where nothing is configured): unknown messages, contexts, domains, missing files and languages, empty and missing forms; with and without arguments; texts with percent signs",
		Need: []string{"fallbacks", "locale_fallbacks", "package_fallbacks", "fresh_processes", "with_args"},
		Run:  runC04})
	register(&Check{ID: "C20", Rule: "catalogues with every mix of empty and non-empty forms, edited and loaded, alone, in locales, and at package level with several languages; each query compared with the lookup it describes, whose texts are recognisable as translations",
		Need: []string{"blank_translations", "queries", "true_answers", "false_answers", "package_queries", "restricted", "resolvers"},
		Run:  runC20})
	register(&Check{ID: "C23", Rule: "translations and messages full of verbs, flags, indexes and percent signs, with argument lists of many types; every lookup compared with fmt on the selected text, every append variant with the lookup on buffers of many capacities",
		Need: []string{"formatted", "verbatim", "appends", "package_formatted"},
		Run:  runC23})
	register(&Check{ID: "C24", Rule: "formats made from named verbs of every kind, text, escaped percent signs and near misses; compared with fmt on an independently rewritten format; values given twice, absent, nil and of wrong types",
		Need: []string{"named", "repeated", "absent", "printed"},
		Run:  runC24})
}

// ---------------------------------------------------------------- arguments

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

type gostringer struct{ a int }

func (g gostringer) GoString() string { return "GO" }

type formatter struct{}

func (formatter) Format(f fmt.State, c rune) { fmt.Fprintf(f, "FMT(%c)", c) }

type panicker struct{}

func (panicker) String() string { panic("boom") }

func genArgs(r *rand.Rand, max int) []interface{} {
	var out []interface{}
	for i := r.Intn(max + 1); i > 0; i-- {
		out = append(out, []interface{}{1, -5, "str", "per%cent", 3.25, true, nil, stringer{"s"}, errors.New("err"), []int{1, 2}, map[string]int{"k": 1}, &struct{ A, B int }{1, 2}, 'x', byte(7), "", gostringer{1}, formatter{}, panicker{}, [3]byte{1, 2, 3}, 1 << 40, "ünï",
			[]interface{}{1, "two"}, []interface{}{}, []interface{}(nil), []string{"a", "b"}, [][]interface{}{{1}, {2}}, error(nil)}[r.Intn(27)])
	}
	return out
}

var fmtPieces = []string{"%d", "%s", "%v", "%+v", "%#v", "%q", "%x", "%5d", "%-5s|", "%05.2f", "%%", "%", "%!", "%[2]d", "%[1]*d", "%[9]s", "%z", " text ", "é", "%t", "%c", "%U", "%T", "%p%%", "100%", "\n", "%(name)s", "%*d", "%.3s", "%e"}

func genFmt(r *rand.Rand, k int) string {
	var b strings.Builder
	for i := 0; i <= r.Intn(k); i++ {
		b.WriteString(fmtPieces[r.Intn(len(fmtPieces))])
	}
	return b.String()
}

func format(s string, args []interface{}) string {
	if len(args) == 0 {
		return s
	}
	return fmt.Sprintf(s, args...)
}

// fmtTexts replaces the translations and some ids of a model by formats.
func fmtTexts(r *rand.Rand, m *Model) *Model {
	out := *m
	out.Entries = map[Key]*Entry{}
	i := 0
	for _, e := range m.sorted() {
		e = e.clone()
		if i%2 == 0 {
			e.ID = genFmt(r, 4) + fmt.Sprint(i)
		}
		if e.Plural != "" && i%3 > 0 {
			e.Plural = genFmt(r, 4) + "p"
		}
		for f := range e.Forms {
			if e.Forms[f] != "" {
				e.Forms[f] = fmt.Sprintf("T%d.%d:", i, f) + genFmt(r, 6)
			}
		}
		out.Entries[Key{e.Ctx, e.ID}] = e
		i++
	}
	return &out
}

// ---------------------------------------------------------------- C04

// missing lists probes without a usable translation: empty or missing forms, and unknown keys.
func (m *Model) missing(r *rand.Rand) []Probe {
	var out []Probe
	for _, p := range m.probes(r, 1) {
		if !m.isT(p.Ctx, p.ID) || !m.isTN(p.Ctx, p.ID, p.N) {
			out = append(out, p)
		}
	}
	return out
}

func runC04(c *C) {
	c.Cases("catalogue", c.N(6000, 80000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 8, Partial: true, NoHeader: true, NoRule: true, Hostile: true, MaxForms: 6})
		// rules which give more forms than the entries have
		if r.Intn(3) == 0 {
			for _, e := range m.sorted() {
				for f := range e.Forms {
					if f > 0 && r.Intn(2) == 0 && e.Plural != "" {
						e.Forms[f] = ""
					}
				}
			}
		}
		m = fmtTexts(r, m)
		var o catalog
		if r.Intn(2) == 0 {
			po := gotext.NewPo()
			b := m.RenderPO(r)
			t.Logf("po: %s", quote(b))
			po.Parse(b)
			o = po
			if r.Intn(3) == 0 {
				o = po.GetDomain()
			}
		} else {
			mo := gotext.NewMo()
			b := m.RenderMO(r, nil)
			t.Logf("mo: %s", quote(b))
			mo.Parse(b)
			o = mo
		}
		empty := []catalog{gotext.NewPo(), gotext.NewMo(), gotext.NewDomain()}[r.Intn(3)]
		none := newModel()
		ps := m.missing(r)
		for _, p := range ps {
			if !t.fallback(m, o, p) {
				return
			}
		}
		for _, p := range m.probes(r, 0) {
			if !t.fallback(none, empty, p) {
				return
			}
		}
		t.Eval()
		t.Distinct(string(m.RenderPO(nil)))
		t.Sample(fmt.Sprint(ps[:min(2, len(ps))]))
	})
	c.Cases("locale", c.N(1600, 20000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 6, Partial: true, Hostile: true})
		files := fstest.MapFS{"xx/LC_MESSAGES/d.po": {Data: m.RenderPO(r)}, "yy/LC_MESSAGES/broken.mo": {Data: []byte("not a mo file at all, but long enough")}, "xx/LC_MESSAGES/empty.po": {Data: nil}, "xx/dir.po/x": {Data: []byte("x")}}
		lang := []string{"xx", "yy", "zz", ""}[r.Intn(4)]
		l := gotext.NewLocaleFS(lang, files)
		if r.Intn(4) == 0 {
			l = gotext.NewLocale("/nonexistent/dir", lang)
		}
		added := map[string]bool{}
		for _, d := range []string{"d", "broken", "empty", "dir", "none", ""} {
			if r.Intn(2) == 0 {
				l.AddDomain(d)
				added[d] = true
				t.Logf("AddDomain(%q)", d)
			}
		}
		none := newModel()
		for _, d := range []string{"d", "broken", "empty", "dir", "none", ""} {
			mm := none
			if d == "d" && added["d"] && lang == "xx" && len(l.Domains) > 0 && l.Domains["d"] != nil {
				mm = m
			}
			if d != "d" && mm != none {
				continue
			}
			for _, p := range m.probes(r, 0) {
				if mm == none && r.Intn(4) == 0 {
					p.N = []int{-1, -2, -1 << 31, 1<<32 + 1, -1<<32 + 1, 1 << 62}[r.Intn(6)]
				}
				if mm.isTN(p.Ctx, p.ID, p.N) {
					continue
				}
				if !t.fallback(mm, localeCat{l, d}, p) {
					t.Logf("domain %q lang %q", d, lang)
					return
				}
				t.Count("locale_fallbacks", 1)
			}
		}
		l.SetDomain("none")
		for _, p := range m.probes(r, 0) {
			args := genArgs(r, 2)
			if r.Intn(4) == 0 {
				p.N = []int{-1, -2, -1 << 31, 1<<32 + 1, -1<<32 + 1, 1 << 62}[r.Intn(6)]
			}
			for _, fn := range []string{"Get", "GetN", "GetC", "GetNC"} {
				pc := PCall{Fn: fn, ID: p.ID, Plural: p.Plural, N: p.N, Ctx: p.Ctx, Args: args}
				want := p.ID
				if pc.hasN() && p.N != 1 {
					want = p.Plural
				}
				if got := locLookup(l, pc); got != format(want, args) {
					t.Failf("locale-default", "%v: got %q, want %q", pc, got, format(want, args))
					return
				}
			}
		}
		t.Eval()
		t.Distinct(string(m.RenderPO(nil)), lang)
	})
	c.Cases("package", c.N(1000, 10000), 1, func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 5, Partial: true, Hostile: true})
		root := filepath.Join(t.Scratch, fmt.Sprintf("c04-%d", t.Index))
		defer os.RemoveAll(root)
		writeFile(filepath.Join(root, "xx", "LC_MESSAGES", "d.po"), m.RenderPO(r))
		writeFile(filepath.Join(root, "yy", "broken.mo"), []byte("bad"))
		langs := []string{"zz", "yy", "zz:yy", "", "xx:zz", "zz:xx"}[r.Intn(6)]
		lib := root
		if r.Intn(6) == 0 {
			lib = "/nonexistent"
		}
		gotext.Configure(lib, langs, []string{"d", "none", "broken"}[r.Intn(3)])
		t.Logf("Configure(%q, %q, %q)", lib, langs, gotext.GetDomain())
		for _, p := range m.probes(r, 0) {
			for _, fn := range lookupFns {
				pc := PCall{Fn: fn, Dom: []string{"d", "none", "broken", ""}[r.Intn(4)], ID: p.ID, Plural: p.Plural, N: p.N, Ctx: p.Ctx, Args: genArgs(r, 2)}
				if (lib != root || !strings.Contains(langs, "xx")) && r.Intn(4) == 0 {
					pc.N = []int{-1, -2, -1 << 31, 1<<32 + 1, -1<<32 + 1, 1 << 62}[r.Intn(6)]
				}
				dom := gotext.GetDomain()
				if pc.hasDom() {
					dom = pc.Dom
				}
				ctx := p.Ctx
				if !pc.hasCtx() {
					ctx = ""
				}
				if e := m.Entries[Key{ctx, p.ID}]; lib == root && dom == "d" && strings.Contains(langs, "xx") && e != nil {
					continue // may be translated
				}
				// the last language decides which of the caller's texts is used
				last := langs[strings.LastIndex(langs, ":")+1:]
				want := p.ID
				if pc.hasN() {
					one := pc.N == 1
					if lib == root && dom == "d" && last == "xx" {
						one = m.form(pc.N) == 0
					}
					if !one {
						want = p.Plural
					}
				}
				got := pkgLookup(pc)
				t.Count("package_fallbacks", 1)
				if got != format(want, pc.Args) {
					t.Failf("package", "%v: got %q, want %q", pc, got, format(want, pc.Args))
					return
				}
			}
		}
		t.Eval()
		t.Distinct(langs, lib, string(m.RenderPO(nil)))
	})
	first := append(append([]string{}, lookupFns...), queryFns...)
	first = append(first, "GetDomain", "GetLanguage", "GetLanguages", "GetLibrary", "GetLocales", "GetStorage", "SetDomain", "SetLanguage", "SetLibrary", "Configure")
	c.Cases("fresh", len(first)*c.N(2, 10), par(), func(t *T) {
		r := t.R
		fn := first[int(t.Index)%len(first)]
		calls := []PCall{{Fn: fn, Dom: "nodomain", ID: "one %d", Plural: "many %d", Ctx: "ctx", N: r.Intn(3)}}
		for i := 0; i < 12; i++ {
			calls = append(calls, PCall{Fn: lookupFns[r.Intn(len(lookupFns))], Dom: []string{"default", "other", ""}[r.Intn(3)], ID: "one", Plural: "many", Ctx: "ctx", N: r.Intn(3)})
		}
		res, diag, ok := fresh(calls)
		t.Count("fresh_processes", 1)
		if !ok {
			t.Failf("fresh-crash", "a new process calling %v first died: %s", calls[0], diag)
			return
		}
		for i, p := range calls {
			if !strings.HasPrefix(p.Fn, "Get") || p.ID == "" || len(lookupIndex(p.Fn)) == 0 {
				if strings.HasPrefix(p.Fn, "IsT") && res[i] != "false" {
					t.Failf("fresh", "%v: got %q", p, res[i])
				}
				continue
			}
			want := p.ID
			if p.hasN() && p.N != 1 {
				want = p.Plural
			}
			if res[i] != want {
				t.Failf("fresh", "with nothing configured, call %d %v: got %q, want %q", i, p, res[i], want)
				return
			}
		}
		t.Eval()
		t.Distinct(fmt.Sprint(calls))
	})
}

func lookupIndex(fn string) string {
	for _, f := range lookupFns {
		if f == fn {
			return f
		}
	}
	return ""
}

func writeFile(p string, b []byte) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
}

// fallback checks one lookup that has nothing to serve, by all methods, with and without arguments.
func (t *T) fallback(m *Model, o catalog, p Probe) bool {
	args := genArgs(t.R, 3)
	if len(args) > 0 {
		t.Count("with_args", 1)
	}
	var got []string
	one, many := format(m.get(p.Ctx, p.ID), args), format(m.getN(p.Ctx, p.ID, p.Plural, p.N), args)
	buf := func() []byte { return append(make([]byte, 0, t.R.Intn(64)), "kept "...) }
	if p.Ctx == "" {
		got = []string{o.Get(p.ID, args...), o.GetN(p.ID, p.Plural, p.N, args...), string(o.Append(buf(), p.ID, args...)), string(o.AppendN(buf(), p.ID, p.Plural, p.N, args...))}
	} else {
		got = []string{o.GetC(p.ID, p.Ctx, args...), o.GetNC(p.ID, p.Plural, p.N, p.Ctx, args...), string(o.AppendC(buf(), p.ID, p.Ctx, args...)), string(o.AppendNC(buf(), p.ID, p.Plural, p.N, p.Ctx, args...))}
	}
	for i, w := range []string{one, many, "kept " + one, "kept " + many} {
		t.Count("fallbacks", 1)
		if got[i] != w {
			t.Failf("fallback", "%v args %v: method %d gives %q, want %q", p, args, i, got[i], w)
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C20

func runC20(c *C) {
	c.Cases("catalogue", c.N(5000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 8, Partial: true, NoHeader: true, NoRule: true, Hostile: true, MaxForms: 5})
		tag(m, "T")
		blanks := []string{" ", "\t", "\n", " \n", "\u00a0", "\u3000", "\u0085", "\v", "\u200b"}
		isBlank := map[string]bool{}
		for _, b := range blanks {
			isBlank[b] = true
		}
		for _, e := range m.sorted() {
			for i := 0; i < len(e.Forms); i++ {
				if r.Intn(12) == 0 {
					e.Forms[i] = blanks[r.Intn(len(blanks))]
				}
			}
		}
		var o catalog
		var ed editable
		if r.Intn(2) == 0 {
			po := gotext.NewPo()
			po.Parse(m.RenderPO(r))
			o, ed = po, po
		} else {
			mo := gotext.NewMo()
			mo.Parse(m.RenderMO(r, nil))
			o, ed = mo, mo.GetDomain()
		}
		t.Logf("catalogue: %s", quote(m.RenderPO(nil)))
		if r.Intn(3) == 0 {
			k := r.Intn(4)
			f := func(n int) int { return ((n+k)%4 + 4) % 4 }
			domainOf(o).SetPluralResolver(f)
			m.Custom = f
			t.Logf("resolver (n+%d) modulo 4", k)
			t.Count("resolvers", 1)
		}
		l := gotext.NewLocale("", "xx")
		if po, ok := o.(*gotext.Po); ok {
			l.AddTranslator("d", po)
		} else {
			l.AddTranslator("d", o.(*gotext.Mo))
		}
		for i := 0; i < 4; i++ {
			for _, p := range m.probes(r, 1) {
				if strings.HasPrefix(p.ID, "<T") || isBlank[p.ID] || isBlank[p.Plural] {
					continue // looks like a translation itself
				}
				for j, x := range []catalog{o, domainOf(o), localeCat{l, "d"}, localeDefault{l}} {
					if j > 0 && r.Intn(4) > 0 {
						continue
					}
					var q [2]bool
					var s [2]string
					if p.Ctx == "" {
						q = [2]bool{x.IsTranslated(p.ID), x.IsTranslatedN(p.ID, p.N)}
						s = [2]string{x.Get(p.ID), x.GetN(p.ID, p.Plural, p.N)}
					} else {
						q = [2]bool{x.IsTranslatedC(p.ID, p.Ctx), x.IsTranslatedNC(p.ID, p.N, p.Ctx)}
						s = [2]string{x.GetC(p.ID, p.Ctx), x.GetNC(p.ID, p.Plural, p.N, p.Ctx)}
					}
					for k := range q {
						served := strings.HasPrefix(s[k], "<T") || isBlank[s[k]]
						if isBlank[s[k]] {
							t.Count("blank_translations", 1)
						}
						t.Count("queries", 1)
						if q[k] {
							t.Count("true_answers", 1)
						} else {
							t.Count("false_answers", 1)
						}
						if q[k] != served {
							t.Failf("query", "%v (object %d, plural %v): reported %v, but the lookup gives %q", p, j, k == 1, q[k], s[k])
							return
						}
					}
				}
			}
			k := m.keys()[r.Intn(len(m.Entries))]
			if r.Intn(3) == 0 {
				k = genKey(r, &GenOpt{Hostile: true}, m.keys())
			}
			applyEdit(t, m, ed, randomSet(r, m, k, []string{"", "<T edit>", "<T other>", " ", "\n"}[r.Intn(5)]))
		}
		t.Eval()
		t.Distinct(string(m.RenderPO(nil)))
		t.Sample(caseKind(m))
	})
	// translations that say what the message says
	c.Cases("own-text", c.N(2000, 20000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 8, Partial: true, NoHeader: true, NoRule: true, Hostile: true, MaxForms: 5})
		ids := []string{""}
		for _, e := range m.sorted() {
			ids = append(ids, e.ID)
		}
		for _, e := range m.sorted() {
			for i := 0; i < len(e.Forms); i++ {
				if r.Intn(3) > 0 {
					e.Forms[i] = []string{e.ID, e.ID, e.Plural, e.Ctx, ids[r.Intn(len(ids))], e.ID + " "}[r.Intn(6)]
					t.Count("own_texts", 1)
				}
			}
		}
		var o catalog
		var ed editable
		if r.Intn(2) == 0 {
			po := gotext.NewPo()
			po.Parse(m.RenderPO(r))
			o, ed = po, po
		} else {
			mo := gotext.NewMo()
			mo.Parse(m.RenderMO(r, nil))
			o, ed = mo, mo.GetDomain()
		}
		t.Logf("catalogue: %s", quote(m.RenderPO(nil)))
		l := gotext.NewLocale("", "xx")
		if po, ok := o.(*gotext.Po); ok {
			l.AddTranslator("d", po)
		} else {
			l.AddTranslator("d", o.(*gotext.Mo))
		}
		for i := 0; i < 2; i++ {
			for _, x := range []catalog{o, localeCat{l, "d"}} {
				if !t.compare("own-text", m, x, m.probes(r, 1)) {
					return
				}
			}
			k := m.keys()[r.Intn(len(m.Entries))]
			applyEdit(t, m, ed, randomSet(r, m, k, k.ID))
		}
		t.Distinct(string(m.RenderPO(nil)))
	})
	c.Cases("package", c.N(800, 8000), 1, func(t *T) {
		w := newWorld(t, true)
		defer w.close()
		if t.R.Intn(3) > 0 || !w.setLocales() {
			w.configure()
		}
		for i := 0; i < 60; i++ {
			p := w.randomCall(queryFns)
			if t.R.Intn(2) == 0 {
				for j := 0; j <= t.R.Intn(2); j++ {
					p.Langs = append(p.Langs, append(w.langs, "qq", "xx.UTF-8", "xx_YY@mod", "yy", "xx")[t.R.Intn(len(w.langs)+5)])
				}
				t.Count("restricted", 1)
			}
			want := w.wantQuery(p)
			t.Count("package_queries", 1)
			if got := pkgQuery(p); got != want {
				t.Failf("package-query", "%v: reported %v, want %v", p, got, want)
				return
			}
			if want {
				t.Count("true_answers", 1)
			} else {
				t.Count("false_answers", 1)
			}
		}
		t.Eval()
		t.Distinct(w.describe())
		t.Sample(w.describe())
	})
}

// localeDefault makes a locale's default domain look like a catalogue.
type localeDefault struct{ l *gotext.Locale }

func (d localeDefault) Get(s string, v ...interface{}) string { return d.l.Get(s, v...) }
func (d localeDefault) GetN(s, p string, n int, v ...interface{}) string {
	return d.l.GetN(s, p, n, v...)
}
func (d localeDefault) GetC(s, c string, v ...interface{}) string { return d.l.GetC(s, c, v...) }
func (d localeDefault) GetNC(s, p string, n int, c string, v ...interface{}) string {
	return d.l.GetNC(s, p, n, c, v...)
}
func (d localeDefault) Append(b []byte, s string, v ...interface{}) []byte {
	return append(b, d.Get(s, v...)...)
}
func (d localeDefault) AppendN(b []byte, s, p string, n int, v ...interface{}) []byte {
	return append(b, d.GetN(s, p, n, v...)...)
}
func (d localeDefault) AppendC(b []byte, s, c string, v ...interface{}) []byte {
	return append(b, d.GetC(s, c, v...)...)
}
func (d localeDefault) AppendNC(b []byte, s, p string, n int, c string, v ...interface{}) []byte {
	return append(b, d.GetNC(s, p, n, c, v...)...)
}
func (d localeDefault) IsTranslated(s string) bool         { return d.l.IsTranslated(s) }
func (d localeDefault) IsTranslatedN(s string, n int) bool { return d.l.IsTranslatedN(s, n) }
func (d localeDefault) IsTranslatedC(s, c string) bool     { return d.l.IsTranslatedC(s, c) }
func (d localeDefault) IsTranslatedNC(s string, n int, c string) bool {
	return d.l.IsTranslatedNC(s, n, c)
}

// ---------------------------------------------------------------- C23

func runC23(c *C) {
	check := func(t *T, m *Model, o catalog, p Probe) bool {
		args := genArgs(t.R, 4)
		one, many := m.get(p.Ctx, p.ID), m.getN(p.Ctx, p.ID, p.Plural, p.N)
		get := func() (string, string) {
			if p.Ctx == "" {
				return o.Get(p.ID, args...), o.GetN(p.ID, p.Plural, p.N, args...)
			}
			return o.GetC(p.ID, p.Ctx, args...), o.GetNC(p.ID, p.Plural, p.N, p.Ctx, args...)
		}
		if len(args) > 0 {
			t.Count("formatted", 2)
		} else {
			t.Count("verbatim", 2)
		}
		g1, gn := get()
		if g1 != format(one, args) || gn != format(many, args) {
			t.Failf("format", "%v args %#v: got %q and %q, want %q and %q", p, args, g1, gn, format(one, args), format(many, args))
			return false
		}
		// append variants: prefix, capacity and what lies behind
		back := make([]byte, 80)
		for i := range back {
			back[i] = byte('a' + i%26)
		}
		ln := t.R.Intn(40)
		cp := ln + t.R.Intn(80-ln+1)
		buf := back[:ln:cp]
		if t.R.Intn(8) == 0 {
			buf, ln = nil, 0
		}
		prefix := string(buf)
		var out []byte
		want := format(one, args)
		if p.Ctx == "" {
			out = o.Append(buf, p.ID, args...)
		} else {
			out = o.AppendC(buf, p.ID, p.Ctx, args...)
		}
		if string(out) != prefix+want || string(buf) != prefix {
			t.Failf("append", "%v args %#v on %q (capacity %d): got %q, want %q added; the buffer now holds %q", p, args, prefix, cp, out, want, buf)
			return false
		}
		if string(back[:ln]) != prefix && ln > 0 && buf != nil {
			t.Failf("append", "the bytes already in the buffer changed")
			return false
		}
		for i := cp; i < 80; i++ {
			if back[i] != byte('a'+i%26) {
				t.Failf("append", "bytes beyond the capacity of the buffer changed")
				return false
			}
		}
		if len(prefix)+len(want) <= cp && buf != nil {
			// what lies behind the text may be in use by another slice of the same memory
			t.Count("appends_in_place", 1)
			for i := ln + len(want); i < cp; i++ {
				if back[i] != byte('a'+i%26) {
					t.Failf("append", "%v args %#v on %q (capacity %d), adding %q: the bytes behind the text changed: %q", p, args, prefix, cp, want, back)
					return false
				}
			}
		}
		want = format(many, args)
		buf = append(make([]byte, 0, t.R.Intn(60)), prefix...)
		if p.Ctx == "" {
			out = o.AppendN(buf, p.ID, p.Plural, p.N, args...)
		} else {
			out = o.AppendNC(buf, p.ID, p.Plural, p.N, p.Ctx, args...)
		}
		t.Count("appends", 2)
		if string(out) != prefix+want || string(buf) != prefix {
			t.Failf("append", "%v args %#v on %q: got %q, want %q added", p, args, prefix, out, want)
			return false
		}
		return true
	}
	c.Cases("catalogue", c.N(6000, 80000), par(), func(t *T) {
		r := t.R
		m := fmtTexts(r, genCatalogue(r, GenOpt{Max: 8, Partial: true, NoHeader: true, NoRule: true, Hostile: true}))
		var o catalog
		var tr gotext.Translator
		if r.Intn(2) == 0 {
			po := gotext.NewPo()
			po.Parse(m.RenderPO(r))
			o, tr = po, po
		} else {
			mo := gotext.NewMo()
			mo.Parse(m.RenderMO(r, nil))
			o, tr = mo, mo
		}
		if r.Intn(3) == 0 {
			o = tr.GetDomain()
		}
		t.Logf("catalogue: %s", quote(m.RenderPO(nil)))
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("d", tr)
		for _, p := range m.probes(r, 1) {
			if !check(t, m, o, p) || r.Intn(6) == 0 && !check(t, m, localeCat{l, "d"}, p) {
				return
			}
		}
		t.Eval()
		t.Distinct(string(m.RenderPO(nil)))
		t.Sample(quoteS(m.sorted()[0].Forms[0]))
	})
	c.Cases("package", c.N(600, 6000), 1, func(t *T) {
		r := t.R
		m := fmtTexts(r, genCatalogue(r, GenOpt{Max: 8, Partial: true, Hostile: true}))
		po := gotext.NewPo()
		po.Parse(m.RenderPO(r))
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("d", po)
		gotext.SetLocales([]*gotext.Locale{l})
		for _, p := range m.probes(r, 1) {
			fn := lookupFns[r.Intn(8)]
			pc := PCall{Fn: fn, Dom: "d", ID: p.ID, Plural: p.Plural, N: p.N, Ctx: p.Ctx, Args: genArgs(r, 4)}
			if pc.hasCtx() != (p.Ctx != "") {
				continue
			}
			want := m.get(p.Ctx, p.ID)
			if pc.hasN() {
				want = m.getN(p.Ctx, p.ID, p.Plural, p.N)
			}
			t.Count("package_formatted", 1)
			if got := pkgLookup(pc); got != format(want, pc.Args) {
				t.Failf("package", "%v: got %q, want %q", pc, got, format(want, pc.Args))
				return
			}
		}
		t.Eval()
	})
	// the exported helpers
	c.Cases("helpers", c.N(9000, 60000), par(), func(t *T) {
		s, args := genFmt(t.R, 6), genArgs(t.R, 4)
		if g := gotext.FormatString(s, args...); g != format(s, args) {
			t.Failf("helper", "FormatString(%q, %#v) = %q, want %q", s, args, g, format(s, args))
		}
		if len(args) > 0 {
			if g := gotext.FormatStringWithArgs(s, args); g != fmt.Sprintf(s, args...) {
				t.Failf("helper", "FormatStringWithArgs(%q, %#v) = %q", s, args, g)
			}
		}
		if g := string(gotext.Appendf([]byte("x"), s, args...)); g != "x"+format(s, args) {
			t.Failf("helper", "Appendf(%q, %#v) = %q", s, args, g)
		}
		t.Eval()
		t.Distinct(s, fmt.Sprintf("%T", args))
	})
}

func quoteS(s string) string { return fmt.Sprintf("%q", s) }

// ---------------------------------------------------------------- C24

// rewriteNamed is an independent reading of the named formats.
func rewriteNamed(f string) (string, []string) {
	isName := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	var out strings.Builder
	var names []string
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out.WriteByte(f[i])
			i++
			continue
		}
		if strings.HasPrefix(f[i:], "%%") {
			out.WriteString("%%")
			i += 2
			continue
		}
		j := i + 1
		if j < len(f) && f[j] == '(' {
			k := j + 1
			for k < len(f) && isName(f[k]) {
				k++
			}
			if k > j+1 && k < len(f) && f[k] == ')' {
				v := k + 1
				for v < len(f) && (f[v] == '.' || f[v] >= '0' && f[v] <= '9') {
					v++
				}
				if v < len(f) && strings.IndexByte("svTtbcdoqXxUeEfFgGp", f[v]) >= 0 {
					names = append(names, f[j+1:k])
					out.WriteString("%" + f[k+1:v+1])
					i = v + 1
					continue
				}
			}
		}
		out.WriteByte('%')
		i++
	}
	return out.String(), names
}

type ownInt int16
type ownText string

// anyValue is a value of one of Go's kinds, often at the end of its range.
func anyValue(r *rand.Rand) interface{} {
	i, p := 7, 1<<40
	return []interface{}{math.MaxInt, math.MinInt64, uint64(math.MaxUint64), uint(1) << 63, uint32(math.MaxUint32), int8(-128), uint8(200), uint16(65535), uintptr(5),
		1e300, -1e-300, float32(0.1), 3.0, 1e21, math.Inf(1), math.NaN(), math.Copysign(0, -1), complex(1, -2), complex64(3i), true, "", "per%cent %d", "%(name)s", "ünï\xff\x00", []byte{0, 255}, []byte(nil),
		ownInt(-3), ownText("own"), [2]bool{true}, []string{"a", ""}, []interface{}{1, "x", nil}, map[string]int{"k": 1}, map[string]interface{}{"name": "in"}, struct {
			A int
			b string
		}{1, "x"}, &struct{ X []int }{[]int{1}}, (*int)(nil), error(nil), errors.New("e"), stringer{"s"}, &stringer{"p"}, gostringer{2}, formatter{}, panicker{}, rune(0x10ffff), rune(-1), json.Number("12"), big.NewInt(int64(p)), time.Duration(i), nil}[r.Intn(49)]
}

func runC24(c *C) {
	names := []string{"name", "type", "a", "A", "a1", "_x", "0", "N", "very_long_name_9", "absent", "nil", "Name", "TYPE", "n", "A1", "nam", "name_", "_X"}
	verbs := []string{"s", "v", "T", "t", "b", "c", "d", "o", "q", "X", "x", "U", "e", "E", "f", "F", "g", "G", "5d", "05d", ".2f", "8.3f", ".3s", "2s"}
	mk := func(t *T) (string, map[string]interface{}) {
		r := t.R
		params := map[string]interface{}{"nil": nil, "name": "Gotext", "type": "struct", "a": 42, "A": -7, "a1": 3.14159, "_x": true, "0": []byte("by"), "N": stringer{"n"}, "very_long_name_9": 'x', "extra": 1, "with space": 2}
		for _, n := range []string{"name", "type", "a", "A", "a1", "_x", "0", "N"} {
			if r.Intn(4) == 0 {
				params[n] = anyValue(r)
			}
		}
		var b strings.Builder
		used := map[string]bool{}
		for i := 0; i <= r.Intn(8); i++ {
			switch r.Intn(8) {
			case 0:
				b.WriteString(words[r.Intn(30)])
			case 1:
				b.WriteString([]string{" ", "%%", "%%%%", "é", "(", ")", "%%(name)s", "text (name) ", "\n", "s"}[r.Intn(10)])
			case 2:
				if r.Intn(4) == 0 {
					b.WriteString([]string{"%()s", "%(na me)s", "%(name", "%(name)", "%(name)z", "%(näme)s", "%((name)s)s", "%(name)-5s", "%(name)+d"}[r.Intn(9)])
				}
			default:
				n := names[r.Intn(len(names))]
				if used[n] {
					t.Count("repeated", 1)
				}
				if _, ok := params[n]; !ok {
					t.Count("absent", 1)
				}
				used[n] = true
				b.WriteString("%(" + n + ")" + verbs[r.Intn(len(verbs))])
				t.Count("named", 1)
			}
		}
		return b.String(), params
	}
	want := func(f string, params map[string]interface{}) string {
		g, ns := rewriteNamed(f)
		var args []interface{}
		for _, n := range ns {
			args = append(args, params[n])
		}
		return fmt.Sprintf(g, args...)
	}
	same := func(a, b map[string]interface{}) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }
	c.Cases("sprintf", c.N(120000, 600000), par(), func(t *T) {
		f, params := mk(t)
		before := fmt.Sprintf("%#v", params)
		t.Logf("format %q", f)
		if got, w := gotext.Sprintf(f, params), want(f, params); got != w {
			t.Failf("sprintf", "Sprintf(%q): got %q, want %q", f, got, w)
			return
		}
		if fmt.Sprintf("%#v", params) != before {
			t.Failf("modified", "the values given to Sprintf(%q) changed", f)
		}
		_ = same
		t.Eval()
		t.Distinct(f)
		t.Sample(f)
	})
	c.Cases("nprintf", c.N(1500, 20000), 1, func(t *T) {
		f, params := mk(t)
		tmp, err := os.Create(filepath.Join(t.Scratch, "stdout"))
		if err != nil {
			panic(err)
		}
		old := os.Stdout
		os.Stdout = tmp
		gotext.NPrintf(f, params)
		os.Stdout = old
		tmp.Close()
		got, _ := os.ReadFile(filepath.Join(t.Scratch, "stdout"))
		t.Count("printed", 1)
		if w := want(f, params); string(got) != w {
			t.Failf("nprintf", "NPrintf(%q): printed %q, want %q", f, got, w)
		}
		t.Eval()
	})
}
