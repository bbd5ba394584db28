package main

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C21", Rule: "every subset of the eight places a domain's file can be in, for languages with and without a region, in a real directory, a virtual file system and one with a base path, with decoys beside, some of the files empty or no catalogues, on disk also through links and with links that lead nowhere; each file has its own text, so the file used is visible in the lookup; files appearing and disappearing between loads",
		MinEvals: 1000, Need: []string{"layouts", "none", "mo_used", "bare_used", "reloads", "package_layouts", "linked", "dangling", "linked_folder", "odd_files"},
		Run: runC21})
	register(&Check{ID: "C22", Rule: "worlds of several languages (invented and real names, lists of up to 37) and domains in files and in memory, most of them translating only part of the messages; random sequences of lookups of all kinds before and between; every lookup compared with the first language that has the text, and again in another order in a fresh configuration",
		Need: []string{"lookups", "first_language", "later_language", "own_text", "in_memory", "lazily_loaded"},
		Run:  runC22})
	register(&Check{ID: "C28", Rule: "language tags of all shapes, real-life ones among them, against an independent simplification; random sequences of all setters (language lists of up to 68 entries, some repeated) and lookups against a model of the settings; locales likewise",
		Need: []string{"long_lists", "repeated", "tags", "settings", "after_lookup", "before_lookup", "locale_settings"},
		Run:  runC28})
	register(&Check{ID: "C34", Rule: "locales and the package over recording translators supplied by the user and over loaded catalogues: the call that arrives, its arguments and the answer are compared, in the default and in named domains, between domain switches and added translators",
		Need: []string{"recorded", "switches", "added", "package_recorded", "catalogue_calls", "queries"},
		Run:  runC34})
}

// ---------------------------------------------------------------- a world of languages on disk

// World is a library directory with many languages and domains, and the configuration of the package.
type World struct {
	t     *T
	root  string
	pool  []string                     // languages with files, most of them
	langs []string                     // as configured
	doms  []string                     // with files somewhere
	dom   string                       // default domain
	files map[string]map[string]*Model // language folder, domain
	place map[string]*Model            // by path under the root
	keys  []Key
	mem   bool
	own   []map[string]*Model // of the locales made by the program
}

var langPool = []string{"xx", "xx_YY", "xx_ZZ", "yy", "yy_AA", "zz", "xyz_QQ", "xyz"}

// realPools are names languages have in practice; en_US is the package's fallback.
var realPools = [][]string{
	{"en_US", "en", "en_GB", "fr", "fr_CA", "C"},
	{"pt_BR", "pt", "zh_Hant_TW", "zh", "POSIX", "en_US"},
	{"en_US", "en", "default", "sr_Latn", "sr", "i_klingon"},
}

// newWorld writes a world. Translations are recognisable by their "<T" when tagged.
func newWorld(t *T, tagged bool) *World {
	r := t.R
	w := &World{t: t, root: filepath.Join(t.Scratch, fmt.Sprintf("w-%s-%d", t.Group, t.Index)), files: map[string]map[string]*Model{}, place: map[string]*Model{}}
	w.doms = []string{"d", "e", "default"}
	pool := []Key{}
	for i := 0; i < 5; i++ {
		pool = append(pool, genKey(r, &GenOpt{Hostile: true}, pool))
	}
	seen := map[Key]bool{}
	n := 0
	w.pool = langPool
	if r.Intn(3) == 0 {
		w.pool = realPools[r.Intn(len(realPools))]
	}
	for _, l := range w.pool {
		if r.Intn(3) == 0 {
			continue
		}
		w.files[l] = map[string]*Model{}
		for _, d := range w.doms {
			if r.Intn(4) == 0 {
				continue
			}
			m := genCatalogue(r, GenOpt{Max: 6, Partial: true, NoHeader: true, NoRule: true, KeyPool: pool, MaxForms: 4})
			if tagged {
				tag(m, fmt.Sprintf("T %s %s %d.", l, d, n))
			}
			n++
			for k := range m.Entries {
				seen[k] = true
			}
			w.files[l][d] = m
			p := l + "/" + d
			if r.Intn(2) == 0 {
				p = l + "/LC_MESSAGES/" + d
			}
			if r.Intn(2) == 0 {
				p += ".po"
				writeFile(filepath.Join(w.root, p), m.RenderPO(r))
			} else {
				p += ".mo"
				writeFile(filepath.Join(w.root, p), m.RenderMO(r, nil))
			}
			w.place[p] = m
		}
	}
	for k := range seen {
		w.keys = append(w.keys, k)
	}
	w.keys = append(w.keys, pool...)
	sortKeys(w.keys)
	k := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		k = 8 + r.Intn(30)
	}
	for i := 0; i < k; i++ {
		l := w.pool[r.Intn(len(w.pool))]
		if k > 4 && r.Intn(4) > 0 {
			// the translations are in the languages named last
			l = fmt.Sprintf("nn_%c%c", 'A'+r.Intn(26), 'A'+r.Intn(26))
		}
		if r.Intn(6) == 0 {
			l += []string{".UTF-8", "@euro", " ", ".ISO-8859-1@x"}[r.Intn(4)]
		}
		if r.Intn(12) == 0 {
			l = []string{"qq", "", "nn_NN"}[r.Intn(3)]
		}
		w.langs = append(w.langs, l)
	}
	w.dom = w.doms[r.Intn(len(w.doms))]
	os.MkdirAll(w.root, 0o755)
	return w
}

func (w *World) close() { os.RemoveAll(w.root) }

func (w *World) describe() string {
	var fs []string
	for l, ds := range w.files {
		for d, m := range ds {
			fs = append(fs, fmt.Sprintf("%s/%s(%d)", l, d, len(m.Entries)))
		}
	}
	sort.Strings(fs)
	return fmt.Sprintf("languages %q default domain %q files %s", w.langs, w.dom, strings.Join(fs, " "))
}

func (w *World) configure() {
	w.t.Logf("%s", w.describe())
	if w.mem {
		return
	}
	switch w.t.R.Intn(3) {
	case 0:
		gotext.SetLibrary(w.root)
		gotext.SetDomain(w.dom)
		gotext.SetLanguage(strings.Join(w.langs, ":"))
	case 1:
		gotext.SetLanguage(strings.Join(w.langs, ":"))
		gotext.SetDomain(w.dom)
		gotext.SetLibrary(w.root)
	default:
		gotext.Configure(w.root, strings.Join(w.langs, ":"), w.dom)
	}
}

// resolve finds the catalogue of a language, and the folder it is in.
func (w *World) resolve(lang, dom string) (*Model, string) {
	lang = simplify(lang)
	if w.mem {
		return w.files[lang][dom], lang
	}
	b := bare(lang)
	for _, ext := range []string{".po", ".mo"} {
		for _, p := range [][2]string{{lang, "/LC_MESSAGES/"}, {b, "/LC_MESSAGES/"}, {lang, "/"}, {b, "/"}} {
			if m := w.place[p[0]+p[1]+dom+ext]; m != nil {
				return m, p[0]
			}
		}
	}
	return nil, ""
}

// at finds the catalogue of the language at a position.
func (w *World) at(i int, dom string) (*Model, string) {
	if w.own != nil {
		return w.own[i][dom], simplify(w.langs[i])
	}
	return w.resolve(w.langs[i], dom)
}

// setLocales hands locales made by the program to the package, some of them for the same language.
func (w *World) setLocales() bool {
	r := w.t.R
	var ls []*gotext.Locale
	var have []string
	for l := range w.files {
		have = append(have, l)
	}
	sort.Strings(have)
	if len(have) == 0 {
		return false
	}
	var langs []string
	seen := map[string]bool{}
	for _, l := range w.langs {
		if len(langs) > 0 && r.Intn(3) == 0 {
			l = langs[r.Intn(len(langs))]
		}
		s := simplify(l)
		from := s
		if w.files[s] == nil || seen[s] {
			from = have[r.Intn(len(have))]
		}
		if len(w.files[from]) == 0 {
			continue // a locale without any domain takes its default from elsewhere
		}
		if seen[s] {
			w.t.Count("same_language", 1)
		}
		seen[s] = true
		langs = append(langs, l)
		own := map[string]*Model{}
		loc := gotext.NewLocale("/nowhere", l)
		for _, d := range w.doms {
			m := w.files[from][d]
			if m == nil || len(own) > 0 && r.Intn(4) == 0 {
				continue
			}
			own[d] = m
			if r.Intn(2) == 0 {
				po := gotext.NewPo()
				po.Parse(m.RenderPO(r))
				loc.AddTranslator(d, po)
			} else {
				mo := gotext.NewMo()
				mo.Parse(m.RenderMO(r, nil))
				loc.AddTranslator(d, mo)
			}
		}
		w.own = append(w.own, own)
		loc.SetDomain(w.dom)
		ls = append(ls, loc)
	}
	if len(ls) == 0 {
		return false
	}
	w.mem, w.langs = true, langs
	if len(ls) == 1 && r.Intn(2) == 0 {
		gotext.SetStorage(ls[0])
	} else {
		gotext.SetLocales(ls)
	}
	w.t.Logf("locales %s", w.describe())
	return true
}

func bare(lang string) string {
	for i := 1; i < len(lang); i++ {
		if lang[i] == '_' || lang[i] == '-' {
			return lang[:i]
		}
	}
	return lang
}

// simplify is what becomes of a language tag, written independently.
func simplify(tag string) string {
	for i := 0; i < len(tag); i++ {
		if tag[i] == ':' || tag[i] == '@' || tag[i] == '.' {
			tag = tag[:i]
			break
		}
	}
	return strings.TrimSpace(tag)
}

func (w *World) randomCall(fns []string) PCall {
	r := w.t.R
	k := w.keys[r.Intn(len(w.keys))]
	if r.Intn(12) == 0 {
		k = Key{"", "unknown"}
	}
	p := PCall{Fn: fns[r.Intn(len(fns))], N: []int{0, 1, 2, 3, 5, 11, 21, 100}[r.Intn(8)]}
	p.Dom = append(w.doms[:len(w.doms):len(w.doms)], "nodomain", "")[r.Intn(len(w.doms)+2)]
	if r.Intn(4) > 0 {
		if !in(w.doms, p.Dom) {
			p.Dom = w.doms[r.Intn(len(w.doms))]
		}
		// a message which one of the languages has
		if m, _ := w.at(r.Intn(len(w.langs)), w.domain(p)); m != nil && len(m.Entries) > 0 {
			ks := m.keys()
			k = ks[r.Intn(len(ks))]
			for i := 0; i < 8 && p.hasCtx() != (k.Ctx != ""); i++ {
				k = ks[r.Intn(len(ks))]
			}
		}
	}
	p.ID, p.Plural, p.Ctx = k.ID, k.ID+"s", k.Ctx
	if p.hasCtx() && p.Ctx == "" && r.Intn(2) == 0 {
		p.Ctx = "some context"
	}
	return p
}

// domain is the one a call goes to.
func (w *World) domain(p PCall) string {
	if p.hasDom() {
		return p.Dom
	}
	return w.dom
}

func (p PCall) ctx() string {
	if p.hasCtx() {
		return p.Ctx
	}
	return ""
}

// translated tells whether one catalogue has the text.
func (p PCall) translated(m *Model) bool {
	if m == nil || (p.hasCtx() && p.Ctx == "") {
		return false
	}
	if p.hasN() {
		return m.isTN(p.ctx(), p.ID, p.N)
	}
	return m.isT(p.ctx(), p.ID)
}

// want is the answer of a lookup, and the position of the language which gives it.
func (w *World) want(p PCall) (string, int) {
	for i := range w.langs {
		m, _ := w.at(i, w.domain(p))
		last := i == len(w.langs)-1
		if p.translated(m) {
			if p.hasN() {
				return format(m.getN(p.ctx(), p.ID, p.Plural, p.N), p.Args), i
			}
			return format(m.get(p.ctx(), p.ID), p.Args), i
		}
		if !last {
			continue
		}
		if !p.hasN() {
			return format(p.ID, p.Args), -1
		}
		if m != nil {
			if p.hasCtx() && p.Ctx == "" {
				if m.form(p.N) == 0 {
					return format(p.ID, p.Args), -1
				}
				return format(p.Plural, p.Args), -1
			}
			return format(m.getN(p.ctx(), p.ID, p.Plural, p.N), p.Args), -1
		}
		if p.N == 1 {
			return format(p.ID, p.Args), -1
		}
		return format(p.Plural, p.Args), -1
	}
	return "", -1
}

// wantQuery is the answer of a query.
func (w *World) wantQuery(p PCall) bool {
	langs := p.Langs
	if len(langs) == 0 {
		langs = w.langs
	}
	for _, q := range langs {
		q = simplify(q)
		for i, l := range w.langs {
			m, actual := w.at(i, w.domain(p))
			if (q == simplify(l) || (q == actual && m != nil)) && p.translated(m) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C22

func runC22(c *C) {
	one := func(t *T, w *World, p PCall) bool {
		want, i := w.want(p)
		t.Count("lookups", 1)
		switch {
		case i == 0:
			t.Count("first_language", 1)
		case i > 0:
			t.Count("later_language", 1)
		default:
			t.Count("own_text", 1)
		}
		if p.Dom != w.dom && p.hasDom() {
			t.Count("lazily_loaded", 1)
		}
		if got := pkgLookup(p); got != want {
			t.Failf("lookup", "%v with %s: got %q, want %q (language %d)", p, w.describe(), got, want, i)
			return false
		}
		return true
	}
	c.Cases("disk", c.N(1000, 15000), 1, func(t *T) {
		w := newWorld(t, t.R.Intn(4) > 0)
		defer w.close()
		w.configure()
		var calls []PCall
		for i := 0; i < 50; i++ {
			p := w.randomCall(lookupFns)
			p.Args = genArgs(t.R, 1)
			if t.R.Intn(25) == 0 {
				w.dom = append(w.doms, "nodomain")[t.R.Intn(len(w.doms)+1)]
				gotext.SetDomain(w.dom)
				t.Logf("SetDomain(%q)", w.dom)
			}
			if t.R.Intn(6) == 0 {
				q := w.randomCall(queryFns)
				if got, want := pkgQuery(q), w.wantQuery(q); got != want {
					t.Failf("query", "%v: got %v, want %v", q, got, want)
					return
				}
			}
			if !one(t, w, p) {
				return
			}
			calls = append(calls, p)
		}
		t.Eval()
		// the same lookups in another order, everything loaded anew
		w.configure()
		for _, i := range t.R.Perm(len(calls)) {
			if !one(t, w, calls[i]) {
				return
			}
		}
		// and the list turned around
		for i, j := 0, len(w.langs)-1; i < j; i, j = i+1, j-1 {
			w.langs[i], w.langs[j] = w.langs[j], w.langs[i]
		}
		w.configure()
		for _, i := range t.R.Perm(len(calls)) {
			if !one(t, w, calls[i]) {
				return
			}
		}
		t.Eval()
		t.Distinct(w.describe(), fmt.Sprint(calls))
		t.Sample(w.describe())
	})
	c.Cases("memory", c.N(1100, 15000), 1, func(t *T) {
		r := t.R
		w := newWorld(t, r.Intn(4) > 0)
		defer w.close()
		if !w.setLocales() {
			return
		}
		t.Logf("%s", w.describe())
		for i := 0; i < 40; i++ {
			t.Count("in_memory", 1)
			if !one(t, w, w.randomCall(lookupFns)) {
				return
			}
		}
		t.Eval()
		t.Distinct(w.describe())
	})
}

// ---------------------------------------------------------------- C21

func runC21(c *C) {
	langs := []string{"xx_YY", "xx", "xx-YY", "xyz_AB", "zh_Hans_CN", "xx_YY.UTF-8@mod", "ca@valencia", "x"}
	doms := []string{"default", "my.domain", "sub/dom", "d d", "LC_MESSAGES", "xx", "d[1]", "a*b", "q?", "%s", "$HOME", "ünï", "[", "{a,b}", "~", "-d", "d.po"}
	// places in the documented order
	places := func(lang, dom string) []string {
		l, b := simplify(lang), bare(simplify(lang))
		var out []string
		for _, ext := range []string{".po", ".mo"} {
			out = append(out, l+"/LC_MESSAGES/"+dom+ext, b+"/LC_MESSAGES/"+dom+ext, l+"/"+dom+ext, b+"/"+dom+ext)
		}
		return out
	}
	content := func(p string, r *rand.Rand) []byte {
		m := newModel()
		m.Entries[Key{"", "where"}] = &Entry{ID: "where", Forms: map[int]string{0: "from " + p}}
		if strings.HasSuffix(p, ".po") {
			return m.RenderPO(r)
		}
		return m.RenderMO(r, nil)
	}
	lang2 := func(p string) string { return p[:strings.IndexByte(p, '/')] }
	c.Cases("layouts", 256*c.N(12, 48), par(), func(t *T) {
		r := t.R
		set := int(t.Index) % 256
		lang := langs[(int(t.Index)/256)%len(langs)]
		if t.Index >= 512 {
			lang = langs[r.Intn(len(langs))]
		}
		dom := doms[0]
		if r.Intn(3) == 0 {
			dom = doms[r.Intn(len(doms))]
		}
		ps := places(lang, dom)
		have := map[string]bool{}
		var first string
		for i, p := range ps {
			if set&(1<<i) != 0 {
				have[p] = true
			}
		}
		for _, p := range ps {
			if have[p] {
				first = p
				break
			}
		}
		t.Logf("language %q domain %q files %v", lang, dom, have)
		root := filepath.Join(t.Scratch, fmt.Sprintf([]string{"c21-%d", "c21[%d]", "c21 *%d", "c21-%d/"}[r.Intn(4)], t.Index))
		defer os.RemoveAll(root)
		os.MkdirAll(root, 0o755)
		vfs, vfsSub := fstest.MapFS{}, fstest.MapFS{}
		links := r.Intn(3) == 0
		odd := map[string]bool{} // files that are there, but without the message
		oddFiles := r.Intn(4) == 0
		put := func(p string) {
			b := content(p, r)
			if oddFiles && r.Intn(3) == 0 {
				b = [][]byte{{}, []byte("\n"), []byte("# nothing yet\n"), []byte("not a catalogue"), []byte("msgid \"other\"\nmsgstr \"x\"\n"), {0}}[r.Intn(6)]
				odd[p] = true
				t.Count("odd_files", 1)
			}
			os.Remove(filepath.Join(root, p))
			if links && r.Intn(2) == 0 {
				// on disk, the file is reached through a link
				real := filepath.Join(root, fmt.Sprintf("store-%d.dat", r.Intn(1<<30)))
				writeFile(real, b)
				os.MkdirAll(filepath.Dir(filepath.Join(root, p)), 0o755)
				if os.Symlink(real, filepath.Join(root, p)) != nil {
					writeFile(filepath.Join(root, p), b)
				}
				t.Count("linked", 1)
			} else {
				writeFile(filepath.Join(root, p), b)
			}
			vfs[p] = &fstest.MapFile{Data: b}
			vfsSub["base/dir/"+p] = &fstest.MapFile{Data: b}
		}
		for p := range have {
			put(p)
		}
		// decoys
		l := simplify(lang)
		for _, p := range []string{dom + ".po", dom + ".mo", "LC_MESSAGES/" + dom + ".po", l + "/lc_messages/" + dom + ".po", l + "/LC_MESSAGES/" + dom, l + "/LC_MESSAGES/" + dom + ".po.bak", l + "_Q/LC_MESSAGES/" + dom + ".po", "x/" + dom + ".po", "default/LC_MESSAGES/" + dom + ".po", l + "/LC_MESSAGES/" + dom + "2.po", l + "/LC_MESSAGES/LC_MESSAGES/" + dom + ".po", "C/" + dom + ".po", l + "/LC_MESSAGES/d1.po", l + "/LC_MESSAGES/aXb.po", l + "/LC_MESSAGES/qx.po", l + "/LC_MESSAGES/a.po", bare(l) + "/a.mo", bare(l) + "/d1.mo",
			strings.ToLower(l) + "/" + dom + ".po", strings.ToLower(l) + "/LC_MESSAGES/" + dom + ".po", strings.ToUpper(l) + "/LC_MESSAGES/" + dom + ".mo", strings.ReplaceAll(l, "_", "-") + "/" + dom + ".po", strings.ReplaceAll(l, "_", "/") + "/" + dom + ".po", strings.ReplaceAll(l, "_", "") + "/LC_MESSAGES/" + dom + ".po",
			l + ".UTF-8/LC_MESSAGES/" + dom + ".po", lang + "/LC_MESSAGES/" + dom + ".po", l + "/" + strings.ToLower(dom) + ".po", l + "/" + dom + ".PO", l + "/LC_MESSAGES/" + strings.ToUpper(dom) + ".mo", l + "/LC_MESSAGES/" + dom + ".gmo", l + "/LC_MESSAGE/" + dom + ".mo", l + "/" + dom + "/" + dom + ".po", "LC_MESSAGES/" + l + "/" + dom + ".po", l + ".po"} {
			if r.Intn(3) == 0 && !have[p] && !in(ps, p) && fs.ValidPath(p) && !strings.HasSuffix(p, "LC_MESSAGES/"+dom) {
				put(p)
			}
		}
		if links {
			// links that lead nowhere: there is no file in those places
			for _, p := range ps {
				if !have[p] && r.Intn(2) == 0 {
					f := filepath.Join(root, p)
					os.MkdirAll(filepath.Dir(f), 0o755)
					if os.Symlink([]string{filepath.Join(root, "gone"), "nowhere/x.po", filepath.Base(f)}[r.Intn(3)], f) == nil {
						t.Count("dangling", 1)
					}
				}
			}
			// and a folder that is a link to another one
			if d := filepath.Join(root, l); r.Intn(3) == 0 {
				if st, err := os.Lstat(d); err == nil && st.IsDir() && os.Rename(d, d+".real") == nil {
					os.Symlink(d+".real", d)
					t.Count("linked_folder", 1)
				}
			}
		}
		locs := []*gotext.Locale{gotext.NewLocale(root, lang), gotext.NewLocaleFS(lang, vfs), gotext.NewLocaleFSWithPath(lang, vfsSub, "base/dir")}
		switch r.Intn(6) {
		case 0:
			locs[0] = gotext.NewLocale(root+"/", lang)
		case 1:
			locs[0] = gotext.NewLocale(root+"/./", lang)
		case 2:
			locs[0], locs[1] = gotext.NewLocale(root, " "+lang), gotext.NewLocaleFSWithPath(lang, vfs, ".")
		case 3:
			locs[1] = gotext.NewLocaleFS(lang+"@x", vfs)
		case 4:
			locs[2] = gotext.NewLocaleFSWithPath(lang, vfsSub, "base/dir/")
		}
		check := func(what string) bool {
			want, wantLang := "where", ""
			if first != "" {
				want, wantLang = "from "+first, lang2(first)
				if odd[first] {
					want = "where"
				}
			}
			for i, loc := range locs {
				loc.AddDomain(dom)
				if got := loc.GetD(dom, "where"); got != want {
					t.Failf("file", "%s, storage %d: the text is %q, want %q", what, i, got, want)
					return false
				}
				if got := loc.GetActualLanguage(dom); got != wantLang {
					t.Failf("actual-language", "%s, storage %d: actual language %q, want %q", what, i, got, wantLang)
					return false
				}
			}
			t.Count("layouts", 1)
			switch {
			case first == "":
				t.Count("none", 1)
			case strings.HasSuffix(first, ".mo"):
				t.Count("mo_used", 1)
			}
			if first != "" && lang2(first) != l {
				t.Count("bare_used", 1)
			}
			t.Eval()
			return true
		}
		if !check("first load") {
			return
		}
		t.Distinct(lang, dom, fmt.Sprint(set))
		t.Sample(fmt.Sprintf("%q %q %v -> %s", lang, dom, have, first))
		// a file of higher rank appears
		for i, p := range ps {
			if !have[p] && r.Intn(3) == 0 && (first == "" || i < indexOf(ps, first)) {
				have[p] = true
				put(p)
				first = ""
				for _, q := range ps {
					if have[q] {
						first = q
						break
					}
				}
				t.Count("reloads", 1)
				if !check("after " + p + " appeared") {
					return
				}
			}
		}
		// the one in use goes away
		for first != "" && r.Intn(2) == 0 {
			delete(have, first)
			os.Remove(filepath.Join(root, first))
			delete(vfs, first)
			delete(vfsSub, "base/dir/"+first)
			gone := first
			first = ""
			for _, q := range ps {
				if have[q] {
					first = q
					break
				}
			}
			if first == "" {
				break // what was loaded may stay
			}
			t.Count("reloads", 1)
			if !check("after " + gone + " went away") {
				return
			}
		}
	})
	c.Cases("package", c.N(600, 3000), 1, func(t *T) {
		r := t.R
		lang, dom := langs[r.Intn(len(langs))], doms[r.Intn(len(doms))]
		root := filepath.Join(t.Scratch, fmt.Sprintf("c21p-%d", t.Index))
		defer os.RemoveAll(root)
		first := ""
		for _, p := range places(lang, dom) {
			if r.Intn(4) == 0 {
				writeFile(filepath.Join(root, p), content(p, r))
				if first == "" {
					first = p
				}
			}
		}
		want, wantLang := "where", ""
		if first != "" {
			want, wantLang = "from "+first, lang2(first)
		}
		gotext.Configure(root, lang, dom)
		t.Logf("Configure(%q, %q, %q) first file %q", root, lang, dom, first)
		if got := gotext.Get("where"); got != want {
			t.Failf("package-file", "Get gives %q, want %q", got, want)
		}
		if got := gotext.GetD(dom, "where"); got != want {
			t.Failf("package-file", "GetD gives %q, want %q", got, want)
		}
		if got := gotext.GetLocales()[0].GetActualLanguage(dom); got != wantLang {
			t.Failf("package-language", "actual language %q, want %q", got, wantLang)
		}
		if wantLang != "" && !gotext.IsTranslated("where", wantLang) {
			t.Failf("package-language", "IsTranslated in %q is false", wantLang)
		}
		t.Count("package_layouts", 1)
		t.Eval()
	})
}

func in(l []string, s string) bool { return indexOf(l, s) >= 0 }

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- C28

func genTag(r *rand.Rand) string {
	p := []string{"en", "en_US", "de", "pt_BR", "zh_Hans_CN", "sr", "x", "", "EN", "en-US", "日本", "e n", "C", "POSIX", "c", "*", "default", "und", "i-klingon", "x-default", "root", "Posix", "zh_TW", "iw", "no", "ca_ES_VALENCIA", "english", "None", "null", "0", "en__US", "/etc", "..", "a/b"}
	if r.Intn(5) == 0 {
		real := []string{"C.UTF-8", "C.utf8", "en_US.UTF-8", "sr@latin", "sr_RS@latin", "ca_ES.UTF-8@valencia", "de_DE@euro", "pt_BR.ISO-8859-1", "POSIX.UTF-8", "zh_CN.GB18030", "en_US:en", "C.", "@", "en_US.UTF-8@posix"}
		return real[r.Intn(len(real))]
	}
	s := []string{".UTF-8", "@euro", ":fr", ".", "@", ":", " ", "\t", "\n", "..", ".utf8@latin", "@a.b", ":a.b@c", "_", "-"}
	var b strings.Builder
	if r.Intn(4) == 0 {
		b.WriteString([]string{" ", "\t", "  ", "\n"}[r.Intn(4)])
	}
	b.WriteString(p[r.Intn(len(p))])
	for i := r.Intn(4); i > 0; i-- {
		b.WriteString(s[r.Intn(len(s))])
		if r.Intn(4) == 0 {
			b.WriteString(p[r.Intn(len(p))])
		}
	}
	return b.String()
}

func runC28(c *C) {
	c.Cases("tags", c.N(120000, 1000000), par(), func(t *T) {
		s := genTag(t.R)
		want := simplify(s)
		got := gotext.SimplifiedLocale(s)
		if got != want {
			t.Failf("tag", "SimplifiedLocale(%q) = %q, want %q", s, got, want)
			return
		}
		if again := gotext.SimplifiedLocale(got); again != got {
			t.Failf("idempotent", "SimplifiedLocale(%q) = %q", got, again)
			return
		}
		if l := gotext.NewLocale("/nowhere", s); l.GetLanguage() != want {
			t.Failf("locale-language", "NewLocale(%q).GetLanguage() = %q, want %q", s, l.GetLanguage(), want)
			return
		}
		if want == s {
			t.Count("unchanged", 1)
		}
		t.Count("tags", 1)
		t.Eval()
		t.Distinct(s)
	})
	c.Cases("settings", c.N(1800, 12000), 1, func(t *T) {
		r := t.R
		root := filepath.Join(t.Scratch, fmt.Sprintf("c28-%d", t.Index))
		defer os.RemoveAll(root)
		writeFile(filepath.Join(root, "en", "d.po"), []byte("msgid \"a\"\nmsgstr \"b\"\n"))
		libs := []string{root, "/nonexistent", root + "/", "", "relative/dir"}
		dmn := []string{"d", "default", "other", "x y", "a/b"}
		lib, dom, langs := root, "d", []string{"en"}
		gotext.Configure(lib, "en", dom)
		genLangs := func() (string, []string) {
			var raw, out []string
			n := 1 + r.Intn(4)
			if r.Intn(8) == 0 {
				n = 8 + r.Intn(60)
				t.Count("long_lists", 1)
			}
			for i := 0; i < n; i++ {
				if i > 0 && r.Intn(5) == 0 {
					// the same once more
					j := r.Intn(i)
					raw, out = append(raw, raw[j]), append(out, out[j])
					t.Count("repeated", 1)
					continue
				}
				s := strings.ReplaceAll(genTag(r), ":", "")
				raw = append(raw, s)
				out = append(out, simplify(s))
			}
			return strings.Join(raw, ":"), out
		}
		var desc []string
		for i := 0; i < 25; i++ {
			op := ""
			switch r.Intn(10) {
			case 0, 1:
				lib = libs[r.Intn(len(libs))]
				gotext.SetLibrary(lib)
				op = fmt.Sprintf("SetLibrary(%q)", lib)
			case 2, 3:
				dom = dmn[r.Intn(len(dmn))]
				gotext.SetDomain(dom)
				op = fmt.Sprintf("SetDomain(%q)", dom)
			case 4, 5:
				var raw string
				raw, langs = genLangs()
				gotext.SetLanguage(raw)
				op = fmt.Sprintf("SetLanguage(%q)", raw)
			case 6:
				var raw string
				raw, langs = genLangs()
				lib, dom = libs[r.Intn(len(libs))], dmn[r.Intn(len(dmn))]
				gotext.Configure(lib, raw, dom)
				op = fmt.Sprintf("Configure(%q, %q, %q)", lib, raw, dom)
			case 7:
				var ls []*gotext.Locale
				langs = nil
				lib, dom = libs[r.Intn(len(libs))], dmn[r.Intn(len(dmn))]
				for j := 0; j <= r.Intn(3); j++ {
					s := genTag(r)
					langs = append(langs, simplify(s))
					l := gotext.NewLocale(lib, s)
					if j > 0 {
						l = gotext.NewLocale("/another", s)
					}
					l.SetDomain(dom)
					if j > 0 && r.Intn(2) == 0 {
						l.SetDomain("something")
					}
					ls = append(ls, l)
				}
				if len(ls) == 1 {
					gotext.SetStorage(ls[0])
				} else {
					gotext.SetLocales(ls)
				}
				op = fmt.Sprintf("SetLocales(%q in %q, domain %q)", langs, lib, dom)
			default:
				p := PCall{Fn: append(lookupFns, queryFns...)[r.Intn(16)], Dom: dmn[r.Intn(len(dmn))], ID: "a", Plural: "as", Ctx: "c", N: r.Intn(3)}
				if p.Fn[0] == 'I' {
					pkgQuery(p)
				} else {
					pkgLookup(p)
				}
				op = p.String()
				t.Count("after_lookup", 1)
			}
			if i > 0 && !strings.HasPrefix(op, "Get") {
				t.Count("before_lookup", 1)
			}
			t.Logf("%s", op)
			desc = append(desc, op)
			t.Count("settings", 1)
			if g := gotext.GetLibrary(); g != lib {
				t.Failf("library", "after %s: GetLibrary() = %q, want %q", op, g, lib)
				return
			}
			if g := gotext.GetDomain(); g != dom {
				t.Failf("domain", "after %s: GetDomain() = %q, want %q", op, g, dom)
				return
			}
			if g := gotext.GetLanguages(); !sameStrings(g, langs) {
				t.Failf("languages", "after %s: GetLanguages() = %q, want %q", op, g, langs)
				return
			}
			if g := gotext.GetLanguage(); g != langs[0] {
				t.Failf("language", "after %s: GetLanguage() = %q, want %q", op, g, langs[0])
				return
			}
			var got []string
			for _, l := range gotext.GetLocales() {
				got = append(got, l.GetLanguage())
				if !strings.HasPrefix(op, "SetLocales") && l.GetDomain() != dom && !strings.HasPrefix(op, "Get") && !strings.HasPrefix(op, "IsT") {
					t.Failf("locale-domain", "after %s: a locale's domain is %q, want %q", op, l.GetDomain(), dom)
					return
				}
			}
			if !sameStrings(got, langs) {
				t.Failf("locales", "after %s: locales %q, want %q", op, got, langs)
				return
			}
			if g := gotext.GetStorage(); g == nil || g.GetLanguage() != langs[0] {
				t.Failf("storage", "after %s: GetStorage() is not the first locale", op)
				return
			}
		}
		t.Eval()
		t.Distinct(strings.Join(desc, ";"))
		t.Sample(strings.Join(desc[:4], "; "))
	})
	c.Cases("locale", c.N(6000, 50000), par(), func(t *T) {
		r := t.R
		files := fstest.MapFS{}
		dmn := []string{"a", "b", "c", "missing1", "missing2"}
		for _, d := range dmn[:3] {
			// also ones without any message
			b := []byte([]string{"msgid \"a\"\nmsgstr \"b\"\n", "", "# comment\n", "msgid \"\"\nmsgstr \"Language: xx\\n\"\n", "msgctxt \"c\"\nmsgid \"a\"\nmsgstr \"\"\n"}[r.Intn(5)])
			switch name := "xx/" + []string{"", "LC_MESSAGES/"}[r.Intn(2)] + d; r.Intn(4) {
			case 0:
				m := newModel()
				m.HasHeader = r.Intn(2) == 0
				files[name+".mo"] = &fstest.MapFile{Data: m.RenderMO(r, nil)}
			default:
				files[name+".po"] = &fstest.MapFile{Data: b}
			}
		}
		tag := "xx" + []string{"", ".UTF-8", " ", "@q"}[r.Intn(4)]
		l := gotext.NewLocaleFS(tag, files)
		want := ""
		for i := 0; i < 8; i++ {
			d := dmn[r.Intn(len(dmn))]
			switch r.Intn(6) {
			case 0:
				l.SetDomain(d)
				want = d
				t.Logf("SetDomain(%q)", d)
			case 1, 2:
				l.AddDomain(d)
				if want == "" && !strings.HasPrefix(d, "missing") {
					want = d
				}
				t.Logf("AddDomain(%q)", d)
			case 3:
				l.AddTranslator(d, gotext.NewPo())
				if want == "" {
					want = d
				}
				t.Logf("AddTranslator(%q)", d)
			case 4:
				l.GetD(d, "a")
				l.Get("a")
				l.IsTranslatedD(d, "a")
				l.GetActualLanguage(d)
			case 5:
				b, err := l.MarshalBinary()
				if err != nil {
					t.Failf("marshal", "MarshalBinary: %v", err)
					return
				}
				l2 := gotext.NewLocale("", "")
				if err := l2.UnmarshalBinary(b); err != nil {
					t.Failf("marshal", "UnmarshalBinary: %v", err)
					return
				}
				if l2.GetDomain() != want || l2.GetLanguage() != "xx" {
					t.Failf("restored", "a restored locale has domain %q language %q, want %q %q", l2.GetDomain(), l2.GetLanguage(), want, "xx")
					return
				}
			}
			if g := l.GetDomain(); g != want {
				t.Failf("locale-domain", "GetDomain() = %q, want %q", g, want)
				return
			}
			if g := l.GetLanguage(); g != "xx" {
				t.Failf("locale-language", "GetLanguage() = %q", g)
				return
			}
			t.Count("locale_settings", 1)
		}
		t.Eval()
		t.Distinct(fmt.Sprint(t.log))
	})
}

// ---------------------------------------------------------------- C34

// recorder is a translator supplied by the user.
type recorder struct {
	name  string
	calls []string
	vals  []string
	dom   *gotext.Domain
}

func show(args []interface{}) string {
	var b strings.Builder
	for _, a := range args {
		if p, ok := a.(*struct{ A, B int }); ok {
			fmt.Fprintf(&b, "ptr %p;", p)
			continue
		}
		if _, ok := a.(panicker); ok {
			b.WriteString("panicker;")
			continue
		}
		fmt.Fprintf(&b, "%T %v;", a, a)
	}
	return fmt.Sprintf("%d:%s", len(args), b.String())
}

func (x *recorder) rec(format string, a ...interface{}) string {
	x.calls = append(x.calls, fmt.Sprintf(format, a...))
	v := fmt.Sprintf("%s says %d %%d %%", x.name, len(x.calls))
	if len(x.calls)%5 == 0 {
		v = ""
	}
	x.vals = append(x.vals, v)
	return v
}
func (x *recorder) ParseFile(f string) { x.rec("ParseFile %q", f) }
func (x *recorder) Parse(b []byte)     { x.rec("Parse %q", b) }
func (x *recorder) Get(s string, v ...interface{}) string {
	return x.rec("Get %q %s", s, show(v))
}
func (x *recorder) GetN(s, p string, n int, v ...interface{}) string {
	return x.rec("GetN %q %q %d %s", s, p, n, show(v))
}
func (x *recorder) GetC(s, c string, v ...interface{}) string {
	return x.rec("GetC %q %q %s", s, c, show(v))
}
func (x *recorder) GetNC(s, p string, n int, c string, v ...interface{}) string {
	return x.rec("GetNC %q %q %d %q %s", s, p, n, c, show(v))
}
func (x *recorder) MarshalBinary() ([]byte, error) { return x.dom.MarshalBinary() }
func (x *recorder) UnmarshalBinary(b []byte) error { return x.dom.UnmarshalBinary(b) }
func (x *recorder) GetDomain() *gotext.Domain      { return x.dom }

// wantRecord is the call that has to arrive.
func (p PCall) wantRecord() string {
	switch {
	case p.hasN() && p.hasCtx():
		return fmt.Sprintf("GetNC %q %q %d %q %s", p.ID, p.Plural, p.N, p.Ctx, show(p.Args))
	case p.hasN():
		return fmt.Sprintf("GetN %q %q %d %s", p.ID, p.Plural, p.N, show(p.Args))
	case p.hasCtx():
		return fmt.Sprintf("GetC %q %q %s", p.ID, p.Ctx, show(p.Args))
	}
	return fmt.Sprintf("Get %q %s", p.ID, show(p.Args))
}

// queryDomain asks one domain what a query asks.
func (p PCall) queryDomain(d *gotext.Domain) bool {
	switch {
	case p.hasN() && p.hasCtx():
		return d.IsTranslatedNC(p.ID, p.N, p.Ctx)
	case p.hasN():
		return d.IsTranslatedN(p.ID, p.N)
	case p.hasCtx():
		return d.IsTranslatedC(p.ID, p.Ctx)
	}
	return d.IsTranslated(p.ID)
}

// lookupCat asks one catalogue what a lookup asks.
func (p PCall) lookupCat(d catalog) string {
	switch {
	case p.hasN() && p.hasCtx():
		return d.GetNC(p.ID, p.Plural, p.N, p.Ctx, p.Args...)
	case p.hasN():
		return d.GetN(p.ID, p.Plural, p.N, p.Args...)
	case p.hasCtx():
		return d.GetC(p.ID, p.Ctx, p.Args...)
	}
	return d.Get(p.ID, p.Args...)
}

// asQuery is the query that belongs to a lookup.
func (p PCall) asQuery() PCall {
	q := p
	q.Fn = "IsTranslated" + strings.TrimPrefix(p.Fn, "Get")
	return q
}

func runC34(c *C) {
	dmn := []string{"a", "b", "A", "a.po", "default", "x/y"}
	// locales
	mk := func(t *T, name string, m *Model) (gotext.Translator, *recorder, catalog) {
		r := t.R
		switch r.Intn(4) {
		case 0:
			po := gotext.NewPo()
			po.Parse(m.RenderPO(r))
			return po, nil, po
		case 1:
			mo := gotext.NewMo()
			mo.Parse(m.RenderMO(r, nil))
			return mo, nil, mo
		}
		po := gotext.NewPo()
		po.Parse(m.RenderPO(r))
		x := &recorder{name: name, dom: po.GetDomain()}
		return x, x, nil
	}
	call := func(r *rand.Rand, keys []Key, fns []string) PCall {
		k := keys[r.Intn(len(keys))]
		p := PCall{Fn: fns[r.Intn(len(fns))], Dom: dmn[r.Intn(len(dmn))], ID: k.ID, Plural: k.ID + "s", Ctx: k.Ctx, N: []int{0, 1, 2, 3, 5, 11, -1, 1 << 31}[r.Intn(8)], Args: genArgs(r, 4)}
		if r.Intn(10) == 0 {
			p.ID, p.Plural, p.Ctx = "", "", ""
		}
		switch r.Intn(30) {
		case 0:
			p.ID = ""
		case 1:
			p.Plural = ""
		case 2:
			p.Ctx = ""
		case 3:
			p.Plural = p.ID
		case 4:
			p.Ctx = p.ID
		case 5:
			p.ID, p.Plural, p.Ctx = " "+p.ID, p.Plural+"\n", "\t"
		case 6:
			p.N = []int{-1 << 31, 1<<32 + 1, -1 << 62, 1<<31 - 1, -2}[r.Intn(5)]
		}
		return p
	}
	verify := func(t *T, what string, p PCall, got string, x *recorder, cat catalog, n0 int) bool {
		if x != nil {
			t.Count("recorded", 1)
			if len(x.calls) != n0+1 {
				t.Failf("calls", "%s %v: translator %s saw %d calls", what, p, x.name, len(x.calls)-n0)
				return false
			}
			if x.calls[n0] != p.wantRecord() {
				t.Failf("arguments", "%s %v: the translator was asked %s, want %s", what, p, x.calls[n0], p.wantRecord())
				return false
			}
			if got != x.vals[n0] {
				t.Failf("answer", "%s %v: got %q, the translator said %q", what, p, got, x.vals[n0])
				return false
			}
			return true
		}
		t.Count("catalogue_calls", 1)
		if want := p.lookupCat(cat); got != want {
			t.Failf("answer", "%s %v: got %q, the catalogue says %q", what, p, got, want)
			return false
		}
		return true
	}
	type holder struct {
		tr  gotext.Translator
		x   *recorder
		cat catalog
	}
	c.Cases("locale", c.N(3000, 40000), par(), func(t *T) {
		r := t.R
		l := gotext.NewLocale("/nowhere", "xx")
		hs := map[string]holder{}
		cur := ""
		keys := []Key{{"", "unknown"}, {"menu", "unknown"}}
		add := func(d string) {
			m := genCatalogue(r, GenOpt{Max: 4, Partial: true, NoHeader: true})
			keys = append(keys, m.keys()...)
			tr, x, cat := mk(t, fmt.Sprintf("tr%d", len(keys)), m)
			l.AddTranslator(d, tr)
			hs[d] = holder{tr, x, cat}
			if cur == "" {
				cur = d
			}
			t.Logf("AddTranslator(%q, %T)", d, tr)
			t.Count("added", 1)
		}
		add(dmn[r.Intn(len(dmn))])
		for i := 0; i < 40; i++ {
			switch r.Intn(8) {
			case 0:
				add(dmn[r.Intn(len(dmn))])
			case 1:
				cur = dmn[r.Intn(len(dmn))]
				l.SetDomain(cur)
				t.Logf("SetDomain(%q)", cur)
				t.Count("switches", 1)
			case 2:
				p := call(r, keys, queryFns)
				d := cur
				if p.hasDom() {
					d = p.Dom
				}
				h, ok := hs[d]
				want := ok && p.queryDomain(h.tr.GetDomain())
				t.Count("queries", 1)
				if got := locQuery(l, p); got != want {
					t.Failf("query", "%v (domain %q): got %v, want %v", p, d, got, want)
					return
				}
			default:
				p := call(r, keys, lookupFns)
				d := cur
				if p.hasDom() {
					d = p.Dom
				}
				h, ok := hs[d]
				n0 := 0
				if h.x != nil {
					n0 = len(h.x.calls)
				}
				got := locLookup(l, p)
				if !ok {
					want := p.ID
					if p.hasN() && p.N != 1 {
						want = p.Plural
					}
					if got != format(want, p.Args) {
						t.Failf("no-domain", "%v (no domain %q): got %q, want %q", p, d, got, format(want, p.Args))
						return
					}
					continue
				}
				if !verify(t, "locale", p, got, h.x, h.cat, n0) {
					return
				}
			}
		}
		t.Eval()
		t.Distinct(fmt.Sprint(keys), cur)
		t.Sample(fmt.Sprint(t.log))
	})
	c.Cases("package", c.N(1600, 20000), 1, func(t *T) {
		r := t.R
		nl := 1 + r.Intn(3)
		var ls []*gotext.Locale
		hs := make([]map[string]holder, nl)
		keys := []Key{{"", "unknown"}, {"menu", "unknown"}}
		cur := dmn[r.Intn(len(dmn))]
		add := func(i int, d string) {
			m := genCatalogue(r, GenOpt{Max: 4, Partial: true, NoHeader: true, KeyPool: keys})
			keys = append(keys, m.keys()...)
			tr, x, cat := mk(t, fmt.Sprintf("tr%d.%d", i, len(keys)), m)
			ls[i].AddTranslator(d, tr)
			hs[i][d] = holder{tr, x, cat}
			t.Logf("locale %d AddTranslator(%q, %T)", i, d, tr)
		}
		for i := 0; i < nl; i++ {
			ls = append(ls, gotext.NewLocale("/nowhere", fmt.Sprintf("l%d", i)))
			hs[i] = map[string]holder{}
			ls[i].SetDomain(cur)
			for j := 0; j <= r.Intn(3); j++ {
				add(i, dmn[r.Intn(len(dmn))])
			}
		}
		gotext.SetLocales(ls)
		for i := 0; i < 40; i++ {
			if r.Intn(10) == 0 {
				add(r.Intn(nl), dmn[r.Intn(len(dmn))])
				t.Count("added", 1)
			}
			p := call(r, keys, lookupFns)
			d := cur
			if p.hasDom() {
				d = p.Dom
			}
			// the locale which answers: the first that has the text, else the last
			sel := nl - 1
			for j := 0; j < nl; j++ {
				if h, ok := hs[j][d]; ok && p.queryDomain(h.tr.GetDomain()) {
					sel = j
					break
				}
			}
			n0 := make([]int, nl)
			for j := range hs {
				if h := hs[j][d]; h.x != nil {
					n0[j] = len(h.x.calls)
				}
			}
			got := pkgLookup(p)
			for j := range hs {
				if h := hs[j][d]; h.x != nil && j != sel && len(h.x.calls) != n0[j] {
					t.Failf("selected", "%v: locale %d was asked for the text, selected is %d", p, j, sel)
					return
				}
			}
			h, ok := hs[sel][d]
			if !ok {
				if want := locLookup(ls[sel], p); got != want {
					t.Failf("package-answer", "%v: got %q, the locale says %q", p, got, want)
					return
				}
				continue
			}
			t.Count("package_recorded", 1)
			if !verify(t, "package", p, got, h.x, h.cat, n0[sel]) {
				return
			}
			q := call(r, keys, queryFns)
			qd := cur
			if q.hasDom() {
				qd = q.Dom
			}
			want := false
			for j := 0; j < nl; j++ {
				if h, ok := hs[j][qd]; ok && q.queryDomain(h.tr.GetDomain()) {
					want = true
				}
			}
			t.Count("queries", 1)
			if got := pkgQuery(q); got != want {
				t.Failf("package-query", "%v: got %v, want %v", q, got, want)
				return
			}
		}
		t.Eval()
		t.Distinct(fmt.Sprint(keys), cur, fmt.Sprint(nl))
	})
	// domain switches at package level, from files, for every argument list
	c.Cases("files", c.N(800, 8000), 1, func(t *T) {
		w := newWorld(t, true)
		defer w.close()
		w.langs = w.langs[:1]
		w.configure()
		for i := 0; i < 30; i++ {
			if t.R.Intn(5) == 0 {
				w.dom = append(w.doms, "nodomain")[t.R.Intn(len(w.doms)+1)]
				gotext.SetDomain(w.dom)
				t.Count("switches", 1)
				t.Logf("SetDomain(%q)", w.dom)
			}
			p := w.randomCall(lookupFns)
			p.Args = genArgs(t.R, 3)
			want, _ := w.want(p)
			got := pkgLookup(p)
			if got != want {
				t.Failf("package-file", "%v: got %q, want %q", p, got, want)
				return
			}
			if loc := locLookup(gotext.GetLocales()[0], p); loc != got {
				t.Failf("package-locale", "%v: the package says %q, its locale %q", p, got, loc)
				return
			}
		}
		t.Eval()
		t.Distinct(w.describe())
	})
}

var _ = path.Join
