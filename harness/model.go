package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// Entry is one message of a catalogue.
type Entry struct {
	Ctx    string // "" is no context
	ID     string
	Plural string // "" is no plural
	Forms  map[int]string
	Refs   []string
	Dirty  bool // touched by an edit since it was loaded
}

func (e *Entry) clone() *Entry {
	c := *e
	c.Forms = map[int]string{}
	for k, v := range e.Forms {
		c.Forms[k] = v
	}
	c.Refs = append([]string(nil), e.Refs...)
	return &c
}

// KV is one header line.
type KV struct{ K, V string }

// Key identifies an entry.
type Key struct{ Ctx, ID string }

// Model is the independent picture of a catalogue: a plain keyed store.
type Model struct {
	HasHeader bool
	Headers   []KV
	Comments  []string
	HdrRefs   []string // references in front of the header
	Entries   map[Key]*Entry
	Rule      *PNode // nil: none given or not usable
	NForms    int
	Custom    func(int) int
	Big       string // what of it is big
}

func newModel() *Model { return &Model{Entries: map[Key]*Entry{}, NForms: 2} }

func (m *Model) clone() *Model {
	c := *m
	c.Entries = map[Key]*Entry{}
	for k, e := range m.Entries {
		c.Entries[k] = e.clone()
	}
	c.Headers = append([]KV(nil), m.Headers...)
	c.Comments = append([]string(nil), m.Comments...)
	return &c
}

// load applies the loading of another catalogue into the same object.
func (m *Model) load(o *Model) {
	for k, e := range o.Entries {
		m.Entries[k] = e.clone()
	}
	if o.Big != "" {
		m.Big = o.Big
	}
	if o.HasHeader {
		m.HasHeader, m.Headers, m.Rule, m.NForms = true, append([]KV(nil), o.Headers...), o.Rule, o.NForms
	}
}

func (m *Model) keys() []Key {
	ks := make([]Key, 0, len(m.Entries))
	for k := range m.Entries {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].Ctx != ks[j].Ctx {
			return ks[i].Ctx < ks[j].Ctx
		}
		return ks[i].ID < ks[j].ID
	})
	return ks
}

// sorted lists the entries in key order.
func (m *Model) sorted() []*Entry {
	var out []*Entry
	for _, k := range m.keys() {
		out = append(out, m.Entries[k])
	}
	return out
}

// form selects the plural form for a count.
func (m *Model) form(n int) int {
	if m.Rule != nil {
		return int(m.Rule.Eval(uint64(uint32(n))))
	}
	if m.Custom != nil {
		return m.Custom(n)
	}
	if n == 1 {
		return 0
	}
	return 1
}

// get is what a singular lookup has to answer, before formatting.
func (m *Model) get(ctx, id string) string {
	if e := m.Entries[Key{ctx, id}]; e != nil && e.Forms[0] != "" {
		return e.Forms[0]
	}
	return id
}

// getN is what a plural lookup has to answer, before formatting.
func (m *Model) getN(ctx, id, plural string, n int) string {
	f := m.form(n)
	if e := m.Entries[Key{ctx, id}]; e != nil {
		if e.Forms[f] != "" {
			return e.Forms[f]
		}
		if f != 0 && e.Plural != "" {
			return e.Plural
		}
	}
	if f == 0 {
		return id
	}
	return plural
}

func (m *Model) isT(ctx, id string) bool {
	e := m.Entries[Key{ctx, id}]
	return e != nil && e.Forms[0] != ""
}

func (m *Model) isTN(ctx, id string, n int) bool {
	e := m.Entries[Key{ctx, id}]
	return e != nil && e.Forms[m.form(n)] != ""
}

func (m *Model) header(key string) []string {
	var out []string
	for _, h := range m.Headers {
		if h.K == key {
			out = append(out, h.V)
		}
	}
	return out
}

// headerFold is the first header of the name, whatever its case.
func (m *Model) headerFold(key string) string {
	for _, h := range m.Headers {
		if strings.EqualFold(h.K, key) {
			return h.V
		}
	}
	return ""
}

// ------------------------------------------------------------- text

var words = []string{"file", "files", "Open", "one", "%d user", "%s", "%v%%", "100%", "user", "in", "the", "Ωmega", "日本語", "naïve", "ß", "a", "b", "ab", "A", "x", "msgid", "msgstr", "#", "fuzzy", "&", "<b>", "'", "`", "$", "{0}", "%[2]s", "é", "\u2028", "\u00a0", "🙂", "n", "[0]", "(", ")", ":", "=", ";", "/", "\\n", "\\", "\"", "\"\"", "%(name)s"}

var specials = []string{"\n", "\t", "\r", "\\", "\"", "\n\n", "\r\n", "\a", "\b", "\v", "\f", "\x7f", "\x01", "\x1b[1m", "\"\n\"", "\\n", "\nmsgid \"x\"", "\nmsgstr \"y\"", "\n#: a:1", " ", "  ", "\u0085", "\n ", " \n"}

// genText makes non-empty text without NUL and EOT.
func genText(r *rand.Rand, maxWords int) string {
	var b strings.Builder
	n := 1 + r.Intn(maxWords)
	switch r.Intn(8) {
	case 0:
		b.WriteString(specials[r.Intn(len(specials))])
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(4) > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(words[r.Intn(len(words))])
		if r.Intn(6) == 0 {
			b.WriteString(specials[r.Intn(len(specials))])
		}
	}
	if r.Intn(8) == 0 {
		b.WriteString("\n")
	}
	s := b.String()
	if s == "" {
		s = "x"
	}
	return s
}

// genPlain makes printable text of one line.
func genPlain(r *rand.Rand, maxWords int) string {
	var p []string
	for i := 0; i <= r.Intn(maxWords); i++ {
		p = append(p, []string{"alpha", "beta", "gamma", "delta", "mail@x.org", "text/plain; charset=UTF-8", "2020-01-01 10:00+0100", "8bit", "a:b", "http://x/y:z", "1.0", "ünï", "x=y", "\\", "\"q\"", "%s"}[r.Intn(16)])
	}
	return strings.Join(p, " ")
}

// ------------------------------------------------------------- catalogue generator

// GenOpt says what a generated catalogue may contain.
type GenOpt struct {
	Max       int  // entries
	Refs      bool // source references
	Partial   bool // untranslated and partly translated entries
	NoHeader  bool // may come without a header
	NoRule    bool // may come without a usable plural rule
	Hostile   bool // near-identical ids and contexts
	Comments  bool // leading file comments
	MaxForms  int
	RefsSpace bool
	KeyPool   []Key // ids and contexts to use
	Big       int   // one in so many has something big
	BigAt     int64 // the number of the catalogue, to have each kind of big in turn; 0: at random
}

var ctxPool = []string{"menu", "Menu", "menu|file", "menufile", "men", "a", "b", "ab", "ctx\twith tab", "c\n2", "\"q\"", "ü", " menu", "menu ", "File"}

func genKey(r *rand.Rand, o *GenOpt, have []Key) Key {
	if len(o.KeyPool) > 0 && r.Intn(2) == 0 {
		// in an MO file the separator would make a context of an id without one
		if k := o.KeyPool[r.Intn(len(o.KeyPool))]; k.Ctx != "" && !strings.Contains(k.Ctx, "\x04") || k.Ctx == "" && !strings.Contains(k.ID, "\x04") {
			return k
		}
	}
	k := Key{ID: genText(r, 4)}
	if r.Intn(2) == 0 {
		k.Ctx = ctxPool[r.Intn(len(ctxPool))]
		if r.Intn(4) == 0 {
			k.Ctx = genText(r, 2)
		}
	}
	if o.Hostile && len(have) > 0 {
		h := have[r.Intn(len(have))]
		switch r.Intn(12) {
		case 0:
			k.ID = h.ID // same id, other context
		case 1:
			k = Key{h.Ctx, h.ID + " "}
		case 2:
			k = Key{h.Ctx, strings.ToUpper(h.ID)}
		case 3:
			k = Key{"", h.Ctx + h.ID}
		case 4:
			k = Key{"", h.Ctx + "|" + h.ID}
		case 5:
			if _, n := utf8.DecodeRuneInString(h.ID); n < len(h.ID) {
				k = Key{h.Ctx + h.ID[:n], h.ID[n:]} // other split of the same text
			}
		case 6:
			k = Key{h.ID, h.Ctx}
		case 7:
			k = Key{h.Ctx + h.Ctx, h.ID}
		case 8:
			k = Key{h.Ctx, h.ID + "\n"}
		case 9:
			k = Key{h.Ctx, strings.TrimSpace(h.ID)}
		}
		// the separator of contexts in MO files, in a text
		if r.Intn(30) == 0 {
			k.ID += "\x04" + []string{"", h.ID, "x", k.Ctx}[r.Intn(4)]
		}
	}
	if k.Ctx == "" {
		k.ID = strings.ReplaceAll(k.ID, "\x04", "4") // would be a context there
	}
	k.Ctx = strings.ReplaceAll(k.Ctx, "\x04", "4")
	if k.ID == "" {
		k.ID = "x"
	}
	return k
}

// genCatalogue makes a catalogue.
func genCatalogue(r *rand.Rand, o GenOpt) *Model {
	m := newModel()
	if o.MaxForms == 0 {
		o.MaxForms = 5
	}
	m.HasHeader = !o.NoHeader || r.Intn(4) > 0
	if m.HasHeader {
		m.Headers, m.Rule, m.NForms = genHeaders(r, &o)
	}
	n := 1 + r.Intn(o.Max)
	var have []Key
	for i := 0; i < n; i++ {
		k := genKey(r, &o, have)
		if m.Entries[k] != nil {
			continue
		}
		have = append(have, k)
		e := genEntry(r, k, m.NForms, &o)
		m.Entries[k] = e
	}
	if o.BigAt > 0 && o.Big > 0 {
		if o.BigAt%int64(o.Big) == 0 {
			m.Big = m.enlarge(r, &o, int(o.BigAt/int64(o.Big))%11)
		}
	} else if o.Big > 0 && r.Intn(o.Big) == 0 {
		m.Big = m.enlarge(r, &o, r.Intn(11))
	}
	if o.Comments && r.Intn(2) == 0 {
		for i := 0; i <= r.Intn(4); i++ {
			m.Comments = append(m.Comments, "#"+[]string{"", " Title of the file", " Copyright (C) \"someone\" \\", ", c-format", ". extracted", " msgid \"no\"", "~ old", " é"}[r.Intn(8)])
		}
	}
	return m
}

// size picks a length around and past the sizes at which small integer types and usual buffers end.
func size(r *rand.Rand) int {
	return []int{120 + r.Intn(20), 250 + r.Intn(10), 505 + r.Intn(15), 1020 + r.Intn(10), 4088 + r.Intn(16), 8188 + r.Intn(10), 32760 + r.Intn(16), 65530 + r.Intn(12), 65536 + r.Intn(4), 66000 + r.Intn(70000)}[r.Intn(10)]
}

// longText makes text of n bytes, in one line or in several ones.
func longText(r *rand.Rand, n int) string {
	unit := []string{"x", "ab ", "é", "0123456789abcdef", "word %s, ", "tab\tquote\" ", "日本"}[r.Intn(7)]
	s := strings.Repeat(unit, n/len(unit)+1)
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	s = s[:n]
	if r.Intn(3) == 0 {
		// several lines
		i := r.Intn(n)
		for !utf8.RuneStart(s[i]) {
			i--
		}
		s = s[:i] + "\n" + s[i:]
	}
	return s + "."
}

// enlarge makes one part of the catalogue big. It tells which one.
func (m *Model) enlarge(r *rand.Rand, o *GenOpt, kind int) string {
	n := size(r)
	ks := m.keys()
	k := ks[r.Intn(len(ks))]
	e := m.Entries[k]
	rekey := func(to Key) {
		delete(m.Entries, k)
		e.Ctx, e.ID = to.Ctx, to.ID
		m.Entries[to] = e
	}
	switch kind {
	case 0, 1:
		e.Forms[r.Intn(len(e.Forms))] = longText(r, n)
		return "form"
	case 2:
		rekey(Key{k.Ctx, longText(r, n)})
		return "id"
	case 3:
		rekey(Key{longText(r, n), k.ID})
		return "context"
	case 4:
		if e.Plural == "" {
			e.Plural = "p"
			for i := 0; i < m.NForms; i++ {
				e.Forms[i] = genText(r, 3)
			}
		}
		e.Plural = longText(r, n)
		return "plural id"
	case 5:
		if m.HasHeader {
			m.Headers = append(m.Headers, KV{"X-Long", strings.TrimSpace(strings.ReplaceAll(longText(r, n), "\n", " "))})
			return "header"
		}
	case 6:
		if o.Refs {
			e.Refs = nil
			for i := 0; len(e.Refs) < n/12; i++ {
				e.Refs = append(e.Refs, fmt.Sprintf("dir/f%d.go:%d", i%7, i+1))
			}
			return "references"
		}
	case 7:
		if o.Comments {
			m.Comments = append(m.Comments, "# "+strings.ReplaceAll(longText(r, n), "\n", " "))
			return "comment"
		}
	case 8, 9:
		if e.Plural == "" {
			e.Plural = "p"
		}
		if n > 5000 {
			n = 5000
		}
		for i := 0; i < n; i++ {
			e.Forms[i] = fmt.Sprintf("form %d", i)
		}
		return "forms"
	}
	if r.Intn(3) > 0 {
		n /= 16
	}
	for i := 0; i < n; i++ {
		k := Key{ID: fmt.Sprintf("many %d", i)}
		if i%5 == 0 {
			k.Ctx = ctxPool[i%len(ctxPool)]
		} else if i%7 == 0 {
			k.Ctx = fmt.Sprintf("context %d", i)
		}
		m.Entries[k] = &Entry{Ctx: k.Ctx, ID: k.ID, Forms: map[int]string{0: fmt.Sprintf("viel %d", i)}}
	}
	return "entries"
}

func genEntry(r *rand.Rand, k Key, nforms int, o *GenOpt) *Entry {
	e := &Entry{Ctx: k.Ctx, ID: k.ID, Forms: map[int]string{}}
	if r.Intn(3) == 0 {
		e.Plural = genText(r, 3)
		switch r.Intn(6) {
		case 0:
			e.Plural = k.ID + "s"
		case 1:
			e.Plural = k.ID
		}
		if o.KeyPool != nil {
			e.Plural = k.ID + "s"
		}
		for i := 0; i < nforms; i++ {
			e.Forms[i] = genText(r, 4)
		}
	} else {
		e.Forms[0] = genText(r, 6)
		if r.Intn(12) == 0 {
			e.Forms[0] = k.ID // translated by itself
		}
	}
	if o.Partial && r.Intn(3) == 0 {
		if r.Intn(2) == 0 {
			for i := range e.Forms {
				e.Forms[i] = ""
			}
		} else {
			e.Forms[r.Intn(len(e.Forms))] = ""
		}
	}
	if o.Refs && r.Intn(3) > 0 {
		for i := 0; i <= r.Intn(4); i++ {
			e.Refs = append(e.Refs, genRef(r))
		}
	}
	if i := r.Intn(len(e.Forms)); r.Intn(40) == 0 && e.Forms[i] != "" {
		e.Forms[i] = []string{k.Ctx, "x", ""}[r.Intn(3)] + "\x04" + e.Forms[i] // the separator of contexts in MO files
	}
	return e
}

// sparse leaves gaps between the plural forms of some entries, which only PO files can have.
func (m *Model) sparse(r *rand.Rand) (n int) {
	for _, e := range m.sorted() {
		if e.Plural == "" || len(e.Forms) == 0 || r.Intn(4) > 0 {
			continue
		}
		fs, at := map[int]string{}, 0
		for i := 0; i < len(e.Forms); i++ {
			at += []int{0, 0, 0, 1, 2, 9}[r.Intn(6)]
			fs[at] = e.Forms[i]
			at++
		}
		e.Forms = fs
		n++
	}
	return n
}

// raw puts bytes that are not UTF-8 (but may be text in another encoding) into translations and plural ids.
func (m *Model) raw(r *rand.Rand) {
	for _, e := range m.sorted() {
		for i := 0; i < len(e.Forms); i++ {
			if r.Intn(2) == 0 && e.Forms[i] != "" {
				at := r.Intn(len(e.Forms[i]) + 1)
				e.Forms[i] = e.Forms[i][:at] + []string{"\xe9", "\xff", "\x80", "\xed\xa0\x80", "\xc3", "\xa4\xb3", "\xf4\x90\x80\x80"}[r.Intn(7)] + e.Forms[i][at:]
			}
		}
		if e.Plural != "" && r.Intn(2) == 0 {
			e.Plural += "\xe9"
		}
	}
}

func genRef(r *rand.Rand) string {
	f := []string{"main.go", "a.go", "./a.go", "./b.go", "b//c.go", "B.go", "b/c.go", "a-b.go", "lib/ü.go", "../x.go", "z", `C:\src\a.go`, `C:/src/b.go`, "ns::a"}[r.Intn(14)]
	if r.Intn(8) == 0 {
		return f
	}
	return fmt.Sprintf("%s:%d", f, []int{1, 2, 9, 10, 11, 99, 100, r.Intn(3000), 30000 + r.Intn(90000), 1<<31 - 2 + r.Intn(4), 1<<32 + r.Intn(3)}[r.Intn(11)])
}

var headerNames = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "X-Generator", "x-generator", "X-Poedit-Basepath", "X-Zeta", "content-type", "Ünï", "X Space"}

func recase(r *rand.Rand, s string) string {
	switch r.Intn(8) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func genHeaders(r *rand.Rand, o *GenOpt) (hs []KV, rule *PNode, nf int) {
	nf = 2
	for i := 0; i < r.Intn(8); i++ {
		hs = append(hs, KV{headerNames[r.Intn(len(headerNames))], genPlain(r, 3)})
	}
	if r.Intn(8) == 0 {
		hs = append(hs, KV{"X-Empty", ""})
	}
	if r.Intn(5) > 0 {
		hs = append(hs, KV{recase(r, "Language"), []string{"de", "en_US", "pt_BR", "sr@latin", ""}[r.Intn(5)]})
	}
	if !o.NoRule || r.Intn(4) > 0 {
		rule, nf = genRule(r, o.MaxForms)
		sp := func() string { return []string{"", " "}[r.Intn(2)] }
		np := fmt.Sprint(nf)
		if r.Intn(5) == 0 {
			// Only the rule decides
			np = []string{"1", "2", fmt.Sprint(nf + 1), "99", "0", "-1", "x", "", "99999999999999999999"}[r.Intn(9)]
		}
		np = "nplurals" + sp() + "=" + sp() + np + sp()
		pl := "plural" + sp() + "=" + rule.Print(r)
		v := np + ";" + sp() + pl
		switch r.Intn(12) {
		case 0:
			v = pl
		case 1:
			v = pl + ";" + sp() + np
		case 2:
			v = np + ";" + sp() + "x-other=" + sp() + "1" + ";" + sp() + pl
		}
		if r.Intn(3) > 0 {
			v += ";"
		}
		hs = append(hs, KV{recase(r, "Plural-Forms"), strings.TrimSpace(v)})
	} else if r.Intn(2) == 0 {
		bad := []string{"nplurals=2; plural=n >", "nplurals=2", "nonsense", "nplurals=2; plural=n == 1 ? 0 ;", "plural=(n!=1", "nplurals=2; plural=n%0==1;"}[r.Intn(6)]
		hs = append(hs, KV{"Plural-Forms", bad})
	}
	if len(hs) == 0 {
		hs = append(hs, KV{"X-Only", "1"})
	}
	r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	return hs, rule, nf
}

func (m *Model) headerText() string {
	var b strings.Builder
	for _, h := range m.Headers {
		b.WriteString(h.K + ": " + h.V + "\n")
	}
	return b.String()
}

// counts to try: some for every form the rule gives, and odd ones.
func (m *Model) counts(r *rand.Rand, k int) []int {
	out := []int{0, 1, 2, r.Intn(120)}
	seen := map[int]bool{}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 14, 20, 21, 22, 25, 100, 101, 102, 111, 1000000} {
		if f := m.form(n); !seen[f] {
			seen[f] = true
			out = append(out, n)
		}
	}
	for i := 0; i < k; i++ {
		out = append(out, int(genConst(r)))
	}
	return out
}
