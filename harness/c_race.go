package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
)

func init() {
	register(&Check{ID: "C14", Race: true, Rule: "one PO, MO or domain object with a prepared catalogue; every pair of its operations (loads, edits, lookups, appends, queries, references, drops, snapshots that are then read and altered, exports, serialisation, restoring, resolver changes) by two goroutines each, and mixes of all operations by eight; the race detector watches, no synchronisation of the harness lies between the calls; each answer has to be the caller's text or a text written for that very message; distinct by the observed order of calls",
		Need: []string{"pairs", "calls", "lookups_judged", "loads", "edits", "snapshots"},
		Run:  runC14})
	register(&Check{ID: "C15", Race: true, Rule: "one locale, or the package configuration, over real directories and virtual file systems; every pair of operations by two goroutines each, and mixes of all of them by eight; the race detector watches; each answer has to be the caller's text or a text of that very message; distinct by the observed order of calls",
		Need: []string{"pairs", "calls", "lookups_judged", "package_pairs", "reloads"},
		Run:  runC15})
}

// Op is one operation of a concurrent workload. It returns "" or what is wrong.
type Op struct {
	Name string
	Kind string // counted
	F    func(r *rand.Rand) string
}

type callStamp struct {
	at int64
	op int
}

// clash runs ops[i] in goroutine i, each n times, without any synchronisation between the calls.
func clash(t *T, ops [][]Op, n int) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	counts := make([]map[string]int64, len(ops))
	stamps := make([][]callStamp, len(ops))
	bad := make([]string, len(ops))
	t0 := time.Now()
	for g := range ops {
		wg.Add(1)
		r := rand.New(rand.NewSource(t.R.Int63()))
		counts[g] = map[string]int64{}
		go func(g int) {
			defer wg.Done()
			var cur string
			defer func() {
				if e := recover(); e != nil {
					bad[g] = fmt.Sprintf("panic in %s: %v", cur, e)
				}
			}()
			<-start
			for i := 0; i < n; i++ {
				k := r.Intn(len(ops[g]))
				o := ops[g][k]
				cur = o.Name
				stamps[g] = append(stamps[g], callStamp{int64(time.Since(t0)), k*64 + g})
				if s := o.F(r); s != "" && bad[g] == "" {
					bad[g] = o.Name + ": " + s
				}
				counts[g][o.Kind]++
			}
		}(g)
	}
	close(start)
	wg.Wait()
	var all []callStamp
	for g := range ops {
		for k, v := range counts[g] {
			t.Count(k, v)
			t.Count("calls", v)
			if k == "lookup" {
				t.Count("lookups_judged", v)
			}
		}
		all = append(all, stamps[g]...)
		if bad[g] != "" {
			key := "result"
			if strings.HasPrefix(bad[g], "panic") {
				key = "panic"
			}
			t.Failf(key, "%s", bad[g])
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	var b strings.Builder
	for _, s := range all {
		fmt.Fprintf(&b, "%d ", s.op)
	}
	t.Distinct(t.Group, fmt.Sprint(t.Index), b.String())
	t.Eval()
}

// pairs lists the pairs of n operations.
func pairs(n int) [][2]int {
	var out [][2]int
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			out = append(out, [2]int{i, j})
		}
	}
	return out
}

// raceKeys are the messages of a race workload. Texts tell the message they belong to.
type raceKeys struct {
	keys []Key
	pl   []string
	set  []string // texts for edits
}

func newRaceKeys() *raceKeys {
	k := &raceKeys{}
	for i := 0; i < 6; i++ {
		ctx := ""
		if i%2 == 1 {
			ctx = fmt.Sprintf("ctx%d", i/4)
		}
		k.keys = append(k.keys, Key{ctx, fmt.Sprintf("message %d", i)})
		k.pl = append(k.pl, fmt.Sprintf("messages %d", i))
		k.set = append(k.set, fmt.Sprintf("<%d|edit|x>", i))
	}
	return k
}

// catalogue makes a version of the catalogue.
func (k *raceKeys) catalogue(v string, rule string, nf int, refs bool) *Model {
	m := newModel()
	m.HasHeader = true
	m.Headers = []KV{{"Language", "xx"}, {"X-Version", v}, {"Plural-Forms", fmt.Sprintf("nplurals=%d; plural=%s;", nf, rule)}}
	for i, key := range k.keys {
		if (i == 2 && v == "a") || (i == 3 && v == "b") {
			continue // in one version only
		}
		e := &Entry{Ctx: key.Ctx, ID: key.ID, Plural: k.pl[i], Forms: map[int]string{}}
		for f := 0; f < nf; f++ {
			e.Forms[f] = fmt.Sprintf("<%d|%s|%d>", i, v, f)
		}
		if refs {
			e.Refs = []string{fmt.Sprintf("%s.go:%d", v, i), "z.go:1"}
		}
		m.Entries[key] = e
	}
	return m
}

// judge tells what is wrong with an answer for message i.
func (k *raceKeys) judge(i int, got string) string {
	if got == k.keys[i].ID || got == k.pl[i] {
		return ""
	}
	if strings.HasPrefix(got, fmt.Sprintf("<%d|", i)) && strings.HasSuffix(got, ">") && strings.Count(got, "<") == 1 {
		return ""
	}
	return fmt.Sprintf("%q answered for message %q", got, k.keys[i])
}

// readAll reads everything in a snapshot, and then alters it.
func readAll(k *raceKeys, a map[string]*gotext.Translation) string {
	n := 0
	for id, tr := range a {
		if id == "" {
			continue
		}
		for _, s := range tr.Trs {
			n += len(s)
			if !strings.HasPrefix(s, "<") && s != "" {
				return fmt.Sprintf("snapshot holds %q for %q", s, id)
			}
		}
		for _, s := range tr.Refs {
			n += len(s)
		}
		tr.Trs[9] = "altered"
		for i := range tr.Refs {
			tr.Refs[i] = "altered:1"
		}
		tr.PluralID = "altered"
	}
	a["altered"] = nil
	return ""
}

// catalogueOps lists the operations of a catalogue object.
func catalogueOps(t *T, kind string) []Op {
	ops, _ := catalogueOpsOf(t, kind)
	return ops
}

func catalogueOpsOf(t *T, kind string) ([]Op, catalog) {
	k := newRaceKeys()
	vers := []*Model{k.catalogue("a", "n!=1", 2, kind != "mo"), k.catalogue("b", "n==1 ? 0 : n<5 ? 1 : 2", 3, kind != "mo")}
	var files, bins [][]byte
	var paths []string
	for i, m := range vers {
		var b []byte
		if kind == "mo" {
			b = m.RenderMO(t.R, nil)
			x := gotext.NewMo()
			x.Parse(b)
			bin, _ := x.MarshalBinary()
			bins = append(bins, bin)
		} else {
			b = m.RenderPO(nil)
			x := gotext.NewPo()
			x.Parse(b)
			bin, _ := x.MarshalBinary()
			bins = append(bins, bin)
		}
		files = append(files, b)
		p := filepath.Join(t.Scratch, fmt.Sprintf("race-%s-%s-%d-%d", kind, t.Group, t.Index, i))
		writeFile(p, b)
		paths = append(paths, p)
	}
	var o catalog
	var ed editable
	var dom *gotext.Domain
	var parse func(b []byte)
	var parseFile func(p string)
	var un func(b []byte) error
	var mb func() ([]byte, error)
	switch kind {
	case "po":
		x := gotext.NewPo()
		o, ed, dom, parse, parseFile, un, mb = x, x, x.GetDomain(), x.Parse, x.ParseFile, x.UnmarshalBinary, x.MarshalBinary
	case "mo":
		x := gotext.NewMo()
		o, ed, dom, parse, parseFile, un, mb = x, x.GetDomain(), x.GetDomain(), x.Parse, x.ParseFile, x.UnmarshalBinary, x.MarshalBinary
	default:
		// a domain that is also loaded into
		x := gotext.NewPo()
		dom = x.GetDomain()
		o, ed, parse, parseFile, un, mb = dom, dom, x.Parse, x.ParseFile, dom.UnmarshalBinary, dom.MarshalBinary
	}
	parse(files[0])
	pick := func(r *rand.Rand, ctx bool) int {
		i := 2 * r.Intn(3)
		if ctx {
			i++
		}
		return i
	}
	resolvers := []func(int) int{nil, func(n int) int { return n % 2 }, func(n int) int { return 0 }}
	ops := []Op{
		{"Parse", "loads", func(r *rand.Rand) string { parse(files[r.Intn(2)]); return "" }},
		{"ParseFile", "loads", func(r *rand.Rand) string { parseFile(paths[r.Intn(2)]); return "" }},
		{"Get", "lookup", func(r *rand.Rand) string { i := pick(r, false); return k.judge(i, o.Get(k.keys[i].ID)) }},
		{"GetN", "lookup", func(r *rand.Rand) string {
			i := pick(r, false)
			return k.judge(i, o.GetN(k.keys[i].ID, k.pl[i], r.Intn(9)))
		}},
		{"GetC", "lookup", func(r *rand.Rand) string {
			i := pick(r, true)
			return k.judge(i, o.GetC(k.keys[i].ID, k.keys[i].Ctx))
		}},
		{"GetNC", "lookup", func(r *rand.Rand) string {
			i := pick(r, true)
			return k.judge(i, o.GetNC(k.keys[i].ID, k.pl[i], r.Intn(9), k.keys[i].Ctx))
		}},
		{"Append", "lookup", func(r *rand.Rand) string {
			i := pick(r, false)
			return k.judge(i, string(o.Append(nil, k.keys[i].ID)))
		}},
		{"AppendN", "lookup", func(r *rand.Rand) string {
			i := pick(r, false)
			return k.judge(i, string(o.AppendN(nil, k.keys[i].ID, k.pl[i], r.Intn(9))))
		}},
		{"AppendC", "lookup", func(r *rand.Rand) string {
			i := pick(r, true)
			return k.judge(i, string(o.AppendC(nil, k.keys[i].ID, k.keys[i].Ctx)))
		}},
		{"AppendNC", "lookup", func(r *rand.Rand) string {
			i := pick(r, true)
			return k.judge(i, string(o.AppendNC(nil, k.keys[i].ID, k.pl[i], r.Intn(9), k.keys[i].Ctx)))
		}},
		{"IsTranslated", "queries", func(r *rand.Rand) string { o.IsTranslated(k.keys[pick(r, false)].ID); return "" }},
		{"IsTranslatedN", "queries", func(r *rand.Rand) string { o.IsTranslatedN(k.keys[pick(r, false)].ID, r.Intn(9)); return "" }},
		{"IsTranslatedC", "queries", func(r *rand.Rand) string {
			i := pick(r, true)
			o.IsTranslatedC(k.keys[i].ID, k.keys[i].Ctx)
			return ""
		}},
		{"IsTranslatedNC", "queries", func(r *rand.Rand) string {
			i := pick(r, true)
			o.IsTranslatedNC(k.keys[i].ID, r.Intn(9), k.keys[i].Ctx)
			return ""
		}},
		{"Set", "edits", func(r *rand.Rand) string { i := pick(r, false); ed.Set(k.keys[i].ID, k.set[i]); return "" }},
		{"SetN", "edits", func(r *rand.Rand) string {
			i := pick(r, false)
			ed.SetN(k.keys[i].ID, k.pl[i], r.Intn(9), k.set[i])
			return ""
		}},
		{"SetC", "edits", func(r *rand.Rand) string {
			i := pick(r, true)
			ed.SetC(k.keys[i].ID, k.keys[i].Ctx, k.set[i])
			return ""
		}},
		{"SetNC", "edits", func(r *rand.Rand) string {
			i := pick(r, true)
			ed.SetNC(k.keys[i].ID, k.pl[i], k.keys[i].Ctx, r.Intn(9), k.set[i])
			return ""
		}},
		{"SetRefs", "edits", func(r *rand.Rand) string {
			ed.SetRefs(k.keys[pick(r, false)].ID, []string{"new.go:1", "new.go:2"})
			return ""
		}},
		{"GetRefs", "references", func(r *rand.Rand) string {
			for _, s := range ed.GetRefs(k.keys[pick(r, false)].ID) {
				if !strings.Contains(s, ".go:") {
					return fmt.Sprintf("reference %q", s)
				}
			}
			return ""
		}},
		{"DropStaleTranslations", "drops", func(r *rand.Rand) string { ed.DropStaleTranslations(); return "" }},
		{"GetTranslations", "snapshots", func(r *rand.Rand) string { return readAll(k, dom.GetTranslations()) }},
		{"GetCtxTranslations", "snapshots", func(r *rand.Rand) string {
			a := dom.GetCtxTranslations()
			for c := range a {
				if s := readAll(k, a[c]); s != "" {
					return s
				}
				delete(a, c)
			}
			return ""
		}},
		{"MarshalText", "exports", func(r *rand.Rand) string {
			b, err := ed.MarshalText()
			if err != nil {
				return err.Error()
			}
			if !bytes.HasPrefix(b, []byte("msgid \"\"\nmsgstr \"\"")) {
				return fmt.Sprintf("export %q", b)
			}
			return ""
		}},
		{"MarshalBinary", "exports", func(r *rand.Rand) string {
			_, err := mb()
			if err != nil {
				return err.Error()
			}
			return ""
		}},
		{"UnmarshalBinary", "loads", func(r *rand.Rand) string {
			if err := un(bins[r.Intn(2)]); err != nil {
				return err.Error()
			}
			return ""
		}},
		{"SetPluralResolver", "edits", func(r *rand.Rand) string { ed.SetPluralResolver(resolvers[r.Intn(3)]); return "" }},
		{"formatted", "lookup", func(r *rand.Rand) string {
			i := pick(r, false)
			if s := o.Get(k.keys[i].ID, 7); !strings.Contains(s, "EXTRA") {
				return fmt.Sprintf("formatted %q", s)
			}
			return ""
		}},
	}
	return ops, o
}

var catalogueOpCount = 28

func runC14(c *C) {
	kinds := []string{"po", "mo", "domain"}
	ps := pairs(catalogueOpCount)
	rounds := c.N(1, 12)
	c.Cases("pair", len(ps)*len(kinds)*rounds, par(), func(t *T) {
		i := int(t.Index)
		kind := kinds[i%3]
		p := ps[(i/3)%len(ps)]
		ops := catalogueOps(t, kind)
		if len(ops) != catalogueOpCount {
			panic("catalogueOpCount")
		}
		a, b := ops[p[0]:p[0]+1], ops[p[1]:p[1]+1]
		t.Logf("%s: %s and %s", kind, a[0].Name, b[0].Name)
		t.Count("pairs", 1)
		clash(t, [][]Op{a, b, a, b}, 12)
		cleanScratch(t)
	})
	c.Cases("mix", c.N(60, 1500), 2, func(t *T) {
		ops := catalogueOps(t, kinds[t.R.Intn(3)])
		var w [][]Op
		for g := 0; g < 8; g++ {
			w = append(w, ops)
		}
		clash(t, w, 150)
		cleanScratch(t)
	})
	// objects do not share anything with one another
	c.Cases("separate", c.N(40, 800), 2, func(t *T) {
		var w [][]Op
		for g := 0; g < 6; g++ {
			w = append(w, catalogueOps(t, kinds[g%3]))
		}
		rules := []string{"n!=1", "n%10==1 && n%100!=11 ? 0 : n%10>=2 ? 1 : 2", "(n==0 ? 0 : n==1 ? 1 : 2)", "n >"}
		expr, _ := plurals.Compile(rules[1])
		comp := Op{"Compile", "rules", func(r *rand.Rand) string {
			e, err := plurals.Compile(rules[r.Intn(len(rules))])
			if err == nil {
				e.Eval(uint32(r.Intn(100)))
			}
			if g := expr.Eval(11); g != 2 {
				return fmt.Sprintf("form %d for 11", g)
			}
			return ""
		}}
		help := Op{"helpers", "helpers", func(r *rand.Rand) string {
			if s := gotext.Sprintf("%(a)s %(b)d", map[string]interface{}{"a": "x", "b": 1}); s != "x 1" {
				return s
			}
			gotext.SimplifiedLocale(" en_US.UTF-8@x")
			gotext.EscapeSpecialCharacters("a\nb\"\n")
			return ""
		}}
		w = append(w, []Op{comp}, []Op{comp}, []Op{help}, []Op{help, comp})
		clash(t, w, 60)
		cleanScratch(t)
	})
}

func cleanScratch(t *T) {
	fs, _ := filepath.Glob(filepath.Join(t.Scratch, fmt.Sprintf("race-*-%s-%d-*", t.Group, t.Index)))
	for _, f := range fs {
		os.RemoveAll(f)
	}
}

// ---------------------------------------------------------------- C15

// raceTree writes a library with three languages and two domains in two versions.
func raceTree(t *T, k *raceKeys) (root string, alt string, mem fstest.MapFS) {
	root = filepath.Join(t.Scratch, fmt.Sprintf("race-tree-%s-%d-a", t.Group, t.Index))
	alt = filepath.Join(t.Scratch, fmt.Sprintf("race-tree-%s-%d-b", t.Group, t.Index))
	mem = fstest.MapFS{}
	a, b := k.catalogue("a", "n!=1", 2, true), k.catalogue("b", "n==1 ? 0 : n<5 ? 1 : 2", 3, true)
	put := func(name string, m *Model) {
		var x []byte
		if strings.HasSuffix(name, ".mo") {
			x = m.RenderMO(t.R, nil)
		} else {
			x = m.RenderPO(nil)
		}
		writeFile(filepath.Join(root, name), x)
		writeFile(filepath.Join(alt, name), x)
		mem[name] = &fstest.MapFile{Data: x}
	}
	put("xx/LC_MESSAGES/d.po", a)
	put("xx/e.mo", b)
	put("yy/d.mo", b)
	put("yy/LC_MESSAGES/e.po", a)
	put("zz/d.po", a)
	return
}

func localeOps(t *T, kind string) []Op {
	ops, _ := localeOpsOf(t, kind)
	return ops
}

func localeOpsOf(t *T, kind string) ([]Op, *gotext.Locale) {
	k := newRaceKeys()
	root, _, mem := raceTree(t, k)
	var l *gotext.Locale
	switch kind {
	case "dir":
		l = gotext.NewLocale(root, "xx_YY")
	case "fs":
		l = gotext.NewLocaleFS("xx_YY", mem)
	default:
		l = new(gotext.Locale)
	}
	if kind != "zero" {
		l.AddDomain("d")
	}
	doms := []string{"d", "e", "added", "none"}
	x := gotext.NewLocale(root, "xx")
	x.AddDomain("d")
	x.AddDomain("e")
	bin, _ := x.MarshalBinary()
	dom := func(r *rand.Rand) string { return doms[r.Intn(len(doms))] }
	ops := []Op{
		{"AddDomain", "reloads", func(r *rand.Rand) string { l.AddDomain(dom(r)); return "" }},
		{"AddTranslator", "reloads", func(r *rand.Rand) string {
			po := gotext.NewPo()
			po.Set(k.keys[0].ID, k.set[0])
			l.AddTranslator("added", po)
			return ""
		}},
		{"SetDomain", "settings", func(r *rand.Rand) string { l.SetDomain(dom(r)); return "" }},
		{"GetDomain", "settings", func(r *rand.Rand) string {
			if d := l.GetDomain(); d != "" && indexOf(doms, d) < 0 {
				return fmt.Sprintf("domain %q", d)
			}
			return ""
		}},
		{"GetLanguage", "settings", func(r *rand.Rand) string {
			if s := l.GetLanguage(); s != "xx_YY" && s != "xx" && s != "" {
				return fmt.Sprintf("language %q", s)
			}
			return ""
		}},
		{"GetActualLanguage", "settings", func(r *rand.Rand) string { l.GetActualLanguage(dom(r)); return "" }},
		{"GetTranslations", "snapshots", func(r *rand.Rand) string { return readAll(k, l.GetTranslations()) }},
		{"MarshalBinary", "exports", func(r *rand.Rand) string {
			if _, err := l.MarshalBinary(); err != nil {
				return err.Error()
			}
			return ""
		}},
		{"UnmarshalBinary", "reloads", func(r *rand.Rand) string {
			if err := l.UnmarshalBinary(bin); err != nil {
				return err.Error()
			}
			return ""
		}},
	}
	for _, fn := range lookupFns {
		fn := fn
		ops = append(ops, Op{fn, "lookup", func(r *rand.Rand) string {
			p := PCall{Fn: fn}
			i := 2 * r.Intn(3)
			if p.hasCtx() {
				i++
			}
			p.ID, p.Ctx, p.Plural, p.N, p.Dom = k.keys[i].ID, k.keys[i].Ctx, k.pl[i], r.Intn(9), dom(r)
			return k.judge(i, locLookup(l, p))
		}})
	}
	for _, fn := range queryFns {
		fn := fn
		ops = append(ops, Op{fn, "queries", func(r *rand.Rand) string {
			i := r.Intn(6)
			locQuery(l, PCall{Fn: fn, ID: k.keys[i].ID, Ctx: k.keys[i].Ctx, N: r.Intn(9), Dom: dom(r)})
			return ""
		}})
	}
	return ops, l
}

var localeOpCount = 25

func packageOps(t *T) []Op {
	k := newRaceKeys()
	root, alt, mem := raceTree(t, k)
	doms := []string{"d", "e", "none"}
	dom := func(r *rand.Rand) string { return doms[r.Intn(len(doms))] }
	langs := []string{"xx", "xx_YY:yy", "zz:yy:xx", "yy.UTF-8"}
	libs := []string{root, alt}
	gotext.Configure(root, langs[1], "d")
	ops := []Op{
		{"SetDomain", "reloads", func(r *rand.Rand) string { gotext.SetDomain(dom(r)); return "" }},
		{"SetLanguage", "reloads", func(r *rand.Rand) string { gotext.SetLanguage(langs[r.Intn(len(langs))]); return "" }},
		{"SetLibrary", "reloads", func(r *rand.Rand) string { gotext.SetLibrary(libs[r.Intn(2)]); return "" }},
		{"Configure", "reloads", func(r *rand.Rand) string {
			gotext.Configure(libs[r.Intn(2)], langs[r.Intn(len(langs))], dom(r))
			return ""
		}},
		{"SetLocales", "reloads", func(r *rand.Rand) string {
			a := gotext.NewLocaleFS("xx_YY", mem)
			a.AddDomain(dom(r))
			b := gotext.NewLocaleFS("yy", mem)
			gotext.SetLocales([]*gotext.Locale{a, b}[:1+r.Intn(2)])
			return ""
		}},
		{"SetStorage", "reloads", func(r *rand.Rand) string {
			a := gotext.NewLocaleFS("xx_YY", mem)
			a.AddDomain(dom(r))
			gotext.SetStorage(a)
			return ""
		}},
		{"GetDomain", "settings", func(r *rand.Rand) string { gotext.GetDomain(); return "" }},
		{"GetLanguage", "settings", func(r *rand.Rand) string { gotext.GetLanguage(); return "" }},
		{"GetLanguages", "settings", func(r *rand.Rand) string {
			for _, l := range gotext.GetLanguages() {
				if len(l) != 2 && l != "xx_YY" {
					return fmt.Sprintf("language %q", l)
				}
			}
			return ""
		}},
		{"GetLibrary", "settings", func(r *rand.Rand) string { gotext.GetLibrary(); return "" }},
		{"GetLocales", "settings", func(r *rand.Rand) string {
			for _, l := range gotext.GetLocales() {
				l.GetLanguage()
				l.GetDomain()
				i := 2 * r.Intn(3)
				if s := k.judge(i, l.GetD("d", k.keys[i].ID)); s != "" {
					return s
				}
			}
			return ""
		}},
		{"GetStorage", "settings", func(r *rand.Rand) string {
			if l := gotext.GetStorage(); l != nil {
				i := 2 * r.Intn(3)
				l.AddDomain("e")
				return k.judge(i, l.GetN(k.keys[i].ID, k.pl[i], 3))
			}
			return ""
		}},
	}
	for _, fn := range lookupFns {
		fn := fn
		ops = append(ops, Op{fn, "lookup", func(r *rand.Rand) string {
			p := PCall{Fn: fn}
			i := 2 * r.Intn(3)
			if p.hasCtx() {
				i++
			}
			p.ID, p.Ctx, p.Plural, p.N, p.Dom = k.keys[i].ID, k.keys[i].Ctx, k.pl[i], r.Intn(9), dom(r)
			return k.judge(i, pkgLookup(p))
		}})
	}
	for _, fn := range queryFns {
		fn := fn
		ops = append(ops, Op{fn, "queries", func(r *rand.Rand) string {
			i := r.Intn(6)
			pkgQuery(PCall{Fn: fn, ID: k.keys[i].ID, Ctx: k.keys[i].Ctx, N: r.Intn(9), Dom: dom(r), Langs: [][]string{nil, {"xx"}, {"yy", "zz"}}[r.Intn(3)]})
			return ""
		}})
	}
	return ops
}

var packageOpCount = 28

func runC15(c *C) {
	kinds := []string{"dir", "fs", "zero"}
	ps := pairs(localeOpCount)
	c.Cases("pair", len(ps)*len(kinds)*c.N(1, 8), par(), func(t *T) {
		i := int(t.Index)
		ops := localeOps(t, kinds[i%3])
		if len(ops) != localeOpCount {
			panic(fmt.Sprint("localeOpCount ", len(ops)))
		}
		p := ps[(i/3)%len(ps)]
		a, b := ops[p[0]:p[0]+1], ops[p[1]:p[1]+1]
		t.Logf("%s: %s and %s", kinds[i%3], a[0].Name, b[0].Name)
		t.Count("pairs", 1)
		clash(t, [][]Op{a, b, a, b}, 10)
		cleanScratch(t)
	})
	c.Cases("mix", c.N(40, 900), 2, func(t *T) {
		ops := localeOps(t, kinds[t.R.Intn(3)])
		var w [][]Op
		for g := 0; g < 8; g++ {
			w = append(w, ops)
		}
		clash(t, w, 100)
		cleanScratch(t)
	})
	pp := pairs(packageOpCount)
	c.Cases("package-pair", len(pp)*c.N(1, 8), 1, func(t *T) {
		i := int(t.Index)
		ops := packageOps(t)
		if len(ops) != packageOpCount {
			panic(fmt.Sprint("packageOpCount ", len(ops)))
		}
		p := pp[i%len(pp)]
		a, b := ops[p[0]:p[0]+1], ops[p[1]:p[1]+1]
		t.Logf("package: %s and %s", a[0].Name, b[0].Name)
		t.Count("package_pairs", 1)
		clash(t, [][]Op{a, b, a, b}, 10)
		cleanScratch(t)
	})
	c.Cases("package-mix", c.N(40, 900), 1, func(t *T) {
		ops := packageOps(t)
		var w [][]Op
		for g := 0; g < 8; g++ {
			w = append(w, ops)
		}
		clash(t, w, 60)
		cleanScratch(t)
	})
}
