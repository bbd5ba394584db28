package main

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C09", Rule: "catalogues loaded from PO and MO files, edited, and built by edits alone, with texts of every kind of character; the exported text is read by the library and by an independent strict reader, and both are compared with the catalogue's own answers and with the model",
		Need: []string{"entries", "plural_entries", "context_entries", "with_refs", "with_comments", "built_by_edits", "from_mo", "special_texts", "sparse_entries"},
		Run:  runC09})
	register(&Check{ID: "C10", Rule: "the same catalogue assembled along different routes (permuted files, split files, edits in random order, MO) and exported many times: all texts byte-identical; load and export again reproduces them; the order of the entries, headers and forms is checked by an independent reader",
		Need: []string{"exports", "routes", "ordered_pairs", "header_pairs", "reexports", "long_beginnings"},
		Run:  runC10})
	register(&Check{ID: "C11", Rule: "catalogues of all kinds (PO, MO, domain) and locales serialised and restored, also twice and across kinds, compared with model and original, then edited and loaded into; every kind of damage to the serialised bytes",
		Need: []string{"restored", "edited_after", "loaded_after", "locales", "without_entries", "damaged_refused", "damaged_accepted", "unchanged_after_refusal"},
		Run:  runC11})
}

// anyText makes text of every kind of character.
func anyText(r *rand.Rand, max int) string {
	if r.Intn(3) > 0 {
		return genText(r, max)
	}
	var b strings.Builder
	for i := 0; i <= r.Intn(max*4); i++ {
		switch r.Intn(6) {
		case 0:
			b.WriteString([]string{"\n", "\t", "\r", "\\", "\"", "\\\"", "\"\\", "\n\n", "\\n", "\\\n", "\"\n\"", "\r\n", "\n\r"}[r.Intn(13)])
		case 1:
			b.WriteRune(rune(1 + r.Intn(0x1f)))
		case 2:
			b.WriteRune(rune(0x80 + r.Intn(0x700)))
		case 3:
			x := rune(r.Intn(0x10ffff))
			if x == 4 || x == 0 || (x >= 0xd800 && x < 0xe000) {
				x = 'x'
			}
			b.WriteRune(x)
		default:
			b.WriteString(words[r.Intn(len(words))])
		}
	}
	s := strings.ReplaceAll(b.String(), "\x04", "4")
	if s == "" {
		return "e"
	}
	return s
}

// anyTexts replaces texts of a model by ones with every kind of character.
func anyTexts(r *rand.Rand, m *Model) {
	es := m.sorted()
	m.Entries = map[Key]*Entry{}
	for _, e := range es {
		if r.Intn(3) == 0 {
			e.ID = anyText(r, 3)
		}
		if e.Ctx != "" && r.Intn(4) == 0 {
			e.Ctx = anyText(r, 2)
		}
		if e.Plural != "" && r.Intn(3) == 0 {
			e.Plural = anyText(r, 3)
		}
		for i := 0; i < len(e.Forms); i++ {
			if e.Forms[i] != "" && r.Intn(2) == 0 {
				e.Forms[i] = anyText(r, 5)
			}
		}
		m.Entries[Key{e.Ctx, e.ID}] = e
	}
}

// build makes an object that holds the model, one way or another, and edits it.
func build(t *T, comments bool) (editable, *Model) {
	r := t.R
	m := genCatalogue(r, GenOpt{Max: 10, Refs: true, Partial: true, Hostile: true, NoHeader: true, NoRule: true, Comments: comments, Big: 200, BigAt: t.Index + 1})
	t.countBig(m)
	anyTexts(r, m)
	var ed editable
	switch r.Intn(5) {
	case 0, 1:
		po := gotext.NewPo()
		t.Count("sparse_entries", int64(m.sparse(r)))
		b := m.RenderPO(r)
		t.Logf("po: %s", quote(b))
		po.Parse(b)
		ed = po
		if r.Intn(3) == 0 {
			ed = po.GetDomain()
		}
	case 2:
		m.Comments = nil
		for _, e := range m.Entries {
			e.Refs = nil
		}
		mo := gotext.NewMo()
		b := m.RenderMO(r, nil)
		t.Logf("mo: %s", quote(b))
		mo.Parse(b)
		ed = mo.GetDomain()
		t.Count("from_mo", 1)
	default:
		// edits alone
		src := m
		m = newModel()
		po := gotext.NewPo()
		ed = po
		if r.Intn(2) == 0 {
			ed = po.GetDomain()
		}
		es := src.sorted()
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		for _, e := range es {
			k := Key{e.Ctx, e.ID}
			op := ""
			if e.Ctx != "" {
				op = "C"
			}
			if e.Plural == "" {
				applyEdit(t, m, ed, Edit{Op: "Set" + op, K: k, Val: e.Forms[0]})
			} else {
				for _, n := range r.Perm(2) {
					if op == "C" {
						applyEdit(t, m, ed, Edit{Op: "SetNC", K: k, Plural: e.Plural, N: n, Val: e.Forms[n]})
					} else {
						applyEdit(t, m, ed, Edit{Op: "SetN", K: k, Plural: e.Plural, N: n, Val: e.Forms[n]})
					}
				}
			}
			if e.Ctx == "" && len(e.Refs) > 0 {
				applyEdit(t, m, ed, Edit{Op: "SetRefs", K: k, Refs: e.Refs})
			}
		}
		t.Count("built_by_edits", 1)
	}
	for i := 0; i < r.Intn(5); i++ {
		ks := m.keys()
		k := ks[r.Intn(len(ks))]
		if r.Intn(3) == 0 {
			k = genKey(r, &GenOpt{Hostile: true}, ks)
		}
		e := randomSet(r, m, k, anyText(r, 4))
		if r.Intn(4) == 0 {
			e = Edit{Op: "SetRefs", K: Key{"", k.ID}, Refs: []string{genRef(r), genRef(r), genRef(r)}[:r.Intn(4)]}
		}
		applyEdit(t, m, ed, e)
	}
	if r.Intn(4) == 0 {
		d := domainOf(ed)
		v := genPlain(r, 2)
		d.Headers.Set("X-Set-Later", v)
		m.HasHeader = true
		var hs []KV
		for _, h := range m.Headers {
			if h.K != "X-Set-Later" {
				hs = append(hs, h)
			}
		}
		m.Headers = append(hs, KV{"X-Set-Later", v})
		t.Logf("header X-Set-Later: %s", v)
	}
	return ed, m
}

func (t *T) countBuilt(m *Model) {
	for _, e := range m.Entries {
		t.Count("entries", 1)
		if e.Plural != "" {
			t.Count("plural_entries", 1)
		}
		if e.Ctx != "" {
			t.Count("context_entries", 1)
		}
		if len(e.Refs) > 0 {
			t.Count("with_refs", 1)
		}
		for _, f := range e.Forms {
			if strings.ContainsAny(f, "\n\r\t\\\"") {
				t.Count("special_texts", 1)
			}
		}
	}
	if len(m.Comments) > 0 {
		t.Count("with_comments", 1)
	}
}

// sameHeaders compares headers as maps.
func sameHeaders(a, b gotext.HeaderMap) string {
	for k, v := range a {
		if !sameStrings(v, b[k]) {
			return fmt.Sprintf("header %q: %q and %q", k, v, b[k])
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("header %q: %q only in the second", k, v)
		}
	}
	return ""
}

func runC09(c *C) {
	c.Cases("export", c.N(20000, 120000), par(), func(t *T) {
		ed, m := build(t, true)
		txt, err := ed.MarshalText()
		if err != nil {
			t.Failf("export", "%v", err)
			return
		}
		t.Logf("exported: %s", quote(txt))
		// an independent reader
		items, err := strictPO(txt)
		if err != nil {
			t.Failf("not-po", "the exported text is not PO: %v", err)
			return
		}
		got, head := poEntries(items)
		if d := diffEntries(got, m.Entries, snapOpt{noDirty: true, noEmpty: true}); d != "" {
			t.Failf("text", "read by another reader: %s", d)
			return
		}
		var hl []string
		if head != nil {
			hl = head.Comments
		}
		if len(m.Comments) > 0 && !isPrefix(m.Comments, hl) {
			t.Failf("comments", "leading comments %q became %q", m.Comments, hl)
			return
		}
		// the library
		p2 := gotext.NewPo()
		p2.Parse(txt)
		if d := diffEntries(snapshot(p2.GetDomain()), m.Entries, snapOpt{noDirty: true, noEmpty: true}); d != "" {
			t.Failf("reload", "loaded again: %s", d)
			return
		}
		h := *m
		if d := h.diffHeaders(p2); d != "" && !hasLater(m) {
			t.Failf("headers", "loaded again: %s", d)
			return
		}
		if d := sameHeaders(domainOf(ed).Headers, p2.Headers); d != "" {
			t.Failf("headers", "loaded again: %s", d)
			return
		}
		if !t.compare("lookup", m, p2, m.probes(t.R, 1)) {
			return
		}
		t.countBuilt(m)
		t.Distinct(string(txt))
		t.Sample(string(txt))
	})
}

func hasLater(m *Model) bool { return len(m.header("X-Set-Later")) > 0 }

func isPrefix(a, b []string) bool {
	return len(a) <= len(b) && sameStrings(a, b[:len(a)])
}

// ---------------------------------------------------------------- C10

func splitRef(ref string) (string, int) {
	i := strings.LastIndexByte(ref, ':')
	if i < 0 || strings.Trim(ref[i+1:], "0123456789") != "" {
		return ref, 0 // a path with colons, and no line
	}
	n, _ := strconv.Atoi(ref[i+1:])
	return ref[:i], n
}

var headerOrder = []string{"project-id-version", "report-msgid-bugs-to", "pot-creation-date", "po-revision-date", "last-translator", "language-team", "language", "mime-version", "content-type", "content-transfer-encoding", "plural-forms"}

// checkOrder checks the order of an exported text.
func (t *T) checkOrder(txt []byte) bool {
	items, err := strictPO(txt)
	if err != nil {
		t.Failf("not-po", "the exported text is not PO: %v", err)
		return false
	}
	if len(items) == 0 || items[0].ID != "" || items[0].HasCtx {
		t.Failf("order", "the header does not come first")
		return false
	}
	last := -1
	lastName := ""
	for _, l := range strings.Split(items[0].Forms[0], "\n") {
		i := strings.IndexByte(l, ':')
		if i < 0 {
			continue
		}
		o := indexOf(headerOrder, strings.ToLower(l[:i]))
		if o < 0 {
			continue
		}
		if last >= 0 {
			t.Count("header_pairs", 1)
		}
		if o < last {
			t.Failf("header-order", "header %q comes after %q", l[:i], lastName)
			return false
		}
		last, lastName = o, l[:i]
	}
	for i, it := range items[1:] {
		if !sort.IntsAreSorted(it.Order) {
			t.Failf("form-order", "entry %q has its forms in the order %v", it.ID, it.Order)
			return false
		}
		if i == 0 {
			continue
		}
		a, b := items[i], it
		less := func(a, b *POItem) bool {
			var pa, pb string
			var la, lb int
			if len(a.Refs) > 0 {
				pa, la = splitRef(a.Refs[0])
			}
			if len(b.Refs) > 0 {
				pb, lb = splitRef(b.Refs[0])
			}
			switch {
			case pa != pb:
				return pa < pb
			case la != lb:
				return la < lb
			case a.Ctx != b.Ctx:
				return a.Ctx < b.Ctx
			}
			return a.ID < b.ID
		}
		t.Count("ordered_pairs", 1)
		if !less(a, b) {
			t.Failf("order", "entry %q (context %q, refs %q) comes after %q (context %q, refs %q)", b.ID, b.Ctx, b.Refs, a.ID, a.Ctx, a.Refs)
			return false
		}
	}
	return true
}

// longBeginnings gives the ids, the contexts or the places of many entries a long beginning in common.
func longBeginnings(r *rand.Rand, m *Model) (n int) {
	var b strings.Builder
	for want := []int{8, 16, 32, 64, 100, 128, 256, 300, 512, 1100}[r.Intn(10)]; b.Len() < want; {
		b.WriteString(words[r.Intn(30)] + "/")
	}
	same := b.String()
	plain := strings.Repeat("directory/", 1+len(same)/10)
	what := r.Intn(4)
	entries := map[Key]*Entry{}
	for _, e := range m.sorted() {
		if e.ID != "" && r.Intn(8) > 0 {
			n++
			switch what {
			case 0, 1:
				e.ID = same + e.ID
			case 2:
				if e.Ctx != "" {
					e.Ctx = same + e.Ctx
				}
			default:
				for i, ref := range e.Refs {
					e.Refs[i] = plain + ref
				}
			}
			// nothing but the ends tells them apart
			if what != 3 && r.Intn(3) > 0 {
				e.Refs = nil
			}
		}
		entries[Key{e.Ctx, e.ID}] = e
	}
	m.Entries = entries
	return n
}

func runC10(c *C) {
	c.Cases("export", c.N(10000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 4 + r.Intn(24), Refs: true, Partial: true, Hostile: true, NoRule: true, Comments: true, MaxForms: 6, Big: 300, BigAt: t.Index + 1})
		if r.Intn(3) == 0 {
			anyTexts(r, m)
		}
		if r.Intn(3) == 0 {
			// many entries at the same few places
			for _, e := range m.sorted() {
				e.Refs = []string{fmt.Sprintf("f.go:%d", r.Intn(3)), genRef(r)}[:1+r.Intn(2)]
			}
		}
		if r.Intn(5) == 0 {
			t.Count("long_beginnings", int64(longBeginnings(r, m)))
		}
		canon := m.RenderPO(nil)
		t.Logf("catalogue: %s", quote(canon))
		first := gotext.NewPo()
		first.Parse(canon)
		want, err := first.MarshalText()
		if err != nil {
			t.Failf("export", "%v", err)
			return
		}
		t.Logf("exported: %s", quote(want))
		same := func(what string, ed editable) bool {
			for i := 0; i < 3; i++ {
				got, err := ed.MarshalText()
				if err != nil {
					t.Failf("export", "%s: %v", what, err)
					return false
				}
				t.Count("exports", 1)
				if !bytes.Equal(got, want) {
					t.Failf("differs", "%s gives another text: %s", what, quote(got))
					return false
				}
			}
			return true
		}
		if !same("the same object", first) || !t.checkOrder(want) {
			return
		}
		// export, load, export
		again := gotext.NewPo()
		again.Parse(want)
		t.Count("reexports", 1)
		if !same("a reloaded object", again) {
			return
		}
		// entries in another order in the file
		for i := 0; i < 3; i++ {
			po := gotext.NewPo()
			w := &poWriter{plain: true}
			for _, l := range m.Comments {
				w.b.WriteString(l)
				w.eol()
			}
			es := m.sorted()
			r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
			w.str("msgid", "")
			w.str("msgstr", m.headerText())
			w.line("")
			cutAt := r.Intn(len(es) + 1)
			for _, e := range es[:cutAt] {
				w.entry(e)
			}
			w2 := &poWriter{plain: true}
			for _, e := range es[cutAt:] {
				w2.entry(e)
			}
			po.Parse([]byte(w.b.String()))
			if cutAt < len(es) {
				// a comment at the very start of the second file would be a file comment of its own
				po.Parse([]byte("msgid \"\"\nmsgstr \"\"\n" + w2.b.String()))
			}
			t.Count("routes", 1)
			if !same("the entries in another order", po) {
				return
			}
		}
		// edits in any order over the header alone
		po := gotext.NewPo()
		h := newModel()
		h.HasHeader, h.Headers, h.Comments = m.HasHeader, m.Headers, m.Comments
		po.Parse(h.RenderPO(nil))
		h.Rule, h.NForms = m.Rule, m.NForms
		es := m.sorted()
		editable := true
		for _, e := range es {
			if e.Ctx != "" && len(e.Refs) > 0 {
				editable = false // references of entries in contexts cannot be set
			}
			if e.Plural != "" {
				for f := range e.Forms {
					if m.countFor(f) < 0 {
						editable = false
					}
				}
			}
		}
		if editable {
			var steps []func()
			for _, e := range es {
				e := e
				k := Key{e.Ctx, e.ID}
				op := ""
				if e.Ctx != "" {
					op = "C"
				}
				if e.Plural == "" {
					steps = append(steps, func() { applyEdit(t, h, po, Edit{Op: "Set" + op, K: k, Val: e.Forms[0]}) })
				} else {
					for f := range e.Forms {
						f := f
						steps = append(steps, func() {
							applyEdit(t, h, po, Edit{Op: "SetN" + op, K: k, Plural: e.Plural, N: m.countFor(f), Val: e.Forms[f]})
						})
					}
				}
				if len(e.Refs) > 0 {
					steps = append(steps, func() { applyEdit(t, h, po, Edit{Op: "SetRefs", K: k, Refs: e.Refs}) })
				}
			}
			sort.SliceStable(steps, func(i, j int) bool { return false })
			r.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
			for _, s := range steps {
				s()
			}
			t.Count("routes", 1)
			t.Count("edit_routes", 1)
			if !same("the catalogue built by edits", po) {
				return
			}
		}
		// without references and comments a MO file holds the same
		plain := m.clone()
		plain.Comments = nil
		for _, e := range plain.Entries {
			e.Refs = nil
		}
		a, b := gotext.NewPo(), gotext.NewMo()
		a.Parse(plain.RenderPO(r))
		b.Parse(plain.RenderMO(r, nil))
		x, _ := a.MarshalText()
		if !bytes.HasPrefix(x, []byte("msgid")) {
			x = x[bytes.Index(x, []byte("msgid \"\"")):] // comments of the random layout
		}
		want = x
		t.Count("routes", 1)
		if !same("the catalogue loaded from MO", b.GetDomain()) || !t.checkOrder(x) {
			return
		}
		t.Eval()
		t.Distinct(string(x), string(canon))
		t.Sample(string(x))
	})
}

// countFor finds a count that selects a form, or -1.
func (m *Model) countFor(f int) int {
	for n := 0; n < 220; n++ {
		if m.form(n) == f {
			return n
		}
	}
	if m.Rule != nil {
		for _, n := range m.Rule.samplePoints(rand.New(rand.NewSource(1)), 10) {
			if m.form(int(n)) == f {
				return int(n)
			}
		}
	}
	return -1
}

// ---------------------------------------------------------------- C11

func runC11(c *C) {
	runClaims(c)
	c.Cases("catalogue", c.N(2500, 70000), par(), func(t *T) {
		r := t.R
		ed, m := build(t, false)
		var src interface {
			MarshalBinary() ([]byte, error)
		} = ed
		bin, err := src.MarshalBinary()
		if err != nil {
			t.Failf("marshal", "%v", err)
			return
		}
		want, _ := ed.MarshalText()
		// restored into every kind of object, also used ones, also twice
		po, mo, do := gotext.NewPo(), gotext.NewMo(), gotext.NewDomain()
		used := genCatalogue(r, GenOpt{Max: 4, Refs: true})
		if r.Intn(2) == 0 {
			po.Parse(used.RenderPO(r))
			mo.Parse(used.RenderMO(r, nil))
		}
		type target struct {
			name string
			o    catalog
			ed   editable
			un   func([]byte) error
			load func(*Model)
		}
		loadPo := func(p *gotext.Po) func(*Model) { return func(m *Model) { p.Parse(m.RenderPO(r)) } }
		for _, x := range []target{
			{"Po", po, po, po.UnmarshalBinary, loadPo(po)},
			{"Mo", mo, mo.GetDomain(), mo.UnmarshalBinary, func(m *Model) { mo.Parse(m.RenderMO(r, nil)) }},
			{"Domain", do, do, do.UnmarshalBinary, nil},
		} {
			buf := append([]byte(nil), bin...)
			if err := x.un(buf); err != nil {
				t.Failf("restore", "%s: %v", x.name, err)
				return
			}
			for i := range buf {
				buf[i] = 'Z'
			}
			t.Count("restored", 1)
			if x.name != "Domain" && r.Intn(3) == 0 {
				b2, err := x.ed.MarshalBinary()
				if err != nil {
					t.Failf("marshal", "again: %v", err)
					return
				}
				if err := x.un(b2); err != nil {
					t.Failf("restore", "again, %s: %v", x.name, err)
					return
				}
			}
			mm := m.clone()
			for _, e := range mm.Entries {
				e.Dirty = false
			}
			if d := diffEntries(snapshot(domainOf(x.o)), mm.Entries, snapOpt{noDirty: true}); d != "" {
				t.Failf("entries", "restored %s: %s", x.name, d)
				return
			}
			if !hasLater(m) {
				if d := mm.diffHeaders(x.o); d != "" {
					t.Failf("headers", "restored %s: %s", x.name, d)
					return
				}
			}
			if d := sameHeaders(domainOf(ed).Headers, domainOf(x.o).Headers); d != "" {
				t.Failf("headers", "restored %s: %s", x.name, d)
				return
			}
			txt, err := x.ed.MarshalText()
			if err != nil {
				t.Failf("export", "restored %s: %v", x.name, err)
				return
			}
			if noComments(txt) != noComments(want) {
				t.Failf("export", "restored %s exports %s, the original %s", x.name, quote(txt), quote(want))
				return
			}
			if !t.compare("lookup", mm, x.o, mm.probes(r, 1)) {
				return
			}
			for k, e := range mm.Entries {
				if k.Ctx == "" && !sameStrings(x.ed.GetRefs(k.ID), e.Refs) {
					t.Failf("refs", "restored %s: %q has references %q, want %q", x.name, k.ID, x.ed.GetRefs(k.ID), e.Refs)
					return
				}
			}
			// usable
			t.editSome(mm, x.ed, 4)
			t.Count("edited_after", 1)
			if !t.compare("edited", mm, x.o, mm.probes(r, 0)) {
				return
			}
			if x.load != nil {
				o := genCatalogue(r, GenOpt{Max: 5, NoHeader: true, Partial: true, KeyPool: mm.keys()})
				x.load(o)
				mm.load(o)
				t.Count("loaded_after", 1)
				if !t.compare("loaded", mm, x.o, mm.probes(r, 0)) {
					return
				}
			}
			if _, err := x.ed.MarshalText(); err != nil {
				t.Failf("export", "after edits: %v", err)
				return
			}
			x.ed.DropStaleTranslations()
		}
		t.countBuilt(m)
		t.Distinct(string(want))
		t.Sample(string(want))
	})
	// empty objects
	c.Cases("empty", c.N(60, 300), 1, func(t *T) {
		r := t.R
		for i, src := range []interface{ MarshalBinary() ([]byte, error) }{gotext.NewPo(), gotext.NewMo(), gotext.NewDomain()} {
			bin, err := src.MarshalBinary()
			if err != nil {
				t.Failf("marshal", "empty %d: %v", i, err)
				return
			}
			po := gotext.NewPo()
			if err := po.UnmarshalBinary(bin); err != nil {
				t.Failf("restore", "empty %d: %v", i, err)
				return
			}
			mm := newModel()
			if !t.compare("empty", mm, po, []Probe{{"", "a", "as", 1}, {"c", "a", "as", 2}}) {
				return
			}
			for j := 0; j < 5; j++ {
				applyEdit(t, mm, po, randomSet(r, mm, genKey(r, &GenOpt{}, nil), "v"))
			}
			if !t.compare("edited", mm, po, mm.probes(r, 0)) {
				return
			}
			o := genCatalogue(r, GenOpt{Max: 5})
			po.Parse(o.RenderPO(r))
			mm.load(o)
			t.compare("loaded", mm, po, mm.probes(r, 0))
		}
		l := gotext.NewLocale("p", "xx")
		bin, err := l.MarshalBinary()
		if err != nil {
			t.Failf("marshal", "empty locale: %v", err)
			return
		}
		l2 := gotext.NewLocale("", "")
		if err := l2.UnmarshalBinary(bin); err != nil {
			t.Failf("restore", "empty locale: %v", err)
			return
		}
		po := gotext.NewPo()
		po.Set("a", "b")
		l2.AddTranslator("d", po)
		if l2.Get("a") != "b" || l2.GetLanguage() != "xx" {
			t.Failf("locale", "an empty restored locale does not work")
		}
	})
	c.Cases("locale", c.N(900, 20000), par(), func(t *T) {
		r := t.R
		root := filepath.Join(t.Scratch, fmt.Sprintf("c11-%d", t.Index))
		defer os.RemoveAll(root)
		l := gotext.NewLocale(root, "xx_YY")
		models := map[string]*Model{}
		doms := []string{"a", "b", "c", "d e"}
		r.Shuffle(len(doms), func(i, j int) { doms[i], doms[j] = doms[j], doms[i] })
		for _, d := range doms[:r.Intn(4)] {
			m := genCatalogue(r, GenOpt{Max: 6, Refs: true, Partial: true, Hostile: true, NoHeader: true, NoRule: true})
			tag(m, d)
			switch r.Intn(4) {
			case 0:
				po := gotext.NewPo()
				po.Parse(m.RenderPO(r))
				l.AddTranslator(d, po)
			case 1:
				mo := gotext.NewMo()
				for _, e := range m.Entries {
					e.Refs = nil
				}
				mo.Parse(m.RenderMO(r, nil))
				l.AddTranslator(d, mo)
			case 2:
				po := gotext.NewPo()
				po.Parse(m.RenderPO(r))
				l.AddTranslator(d, &recorder{dom: po.GetDomain()})
			default:
				writeFile(filepath.Join(root, "xx", d+".po"), m.RenderPO(r))
				l.AddDomain(d)
			}
			// without any entry, but with headers and a rule
			if r.Intn(6) == 0 {
				if l.Domains[d] == nil {
					continue
				}
				l.Domains[d].GetDomain().DropStaleTranslations()
				m = m.clone()
				m.Entries = map[Key]*Entry{}
				t.Count("without_entries", 1)
			}
			models[d] = m
		}
		if r.Intn(3) == 0 {
			l.SetDomain(doms[r.Intn(len(doms))])
		}
		bin, err := l.MarshalBinary()
		if err != nil {
			t.Failf("marshal", "%v", err)
			return
		}
		l2, ownFS := gotext.NewLocale("elsewhere", "qq"), false
		switch r.Intn(3) {
		case 0:
			l2 = new(gotext.Locale)
		case 1:
			l2 = gotext.NewLocaleFS("zz", fstest.MapFS{})
			for _, d := range append([]string{"old"}, doms[r.Intn(len(doms)):]...) {
				po := gotext.NewPo()
				po.Set("x", "was there before")
				l2.AddTranslator(d, po)
			}
			ownFS = true
		}
		if err := l2.UnmarshalBinary(bin); err != nil {
			t.Failf("restore", "%v", err)
			return
		}
		t.Count("locales", 1)
		if l2.GetDomain() != l.GetDomain() || l2.GetLanguage() != "xx_YY" {
			t.Failf("settings", "restored: domain %q language %q, want %q %q", l2.GetDomain(), l2.GetLanguage(), l.GetDomain(), "xx_YY")
			return
		}
		var def *Model
		for _, d := range append(doms, "old", "") {
			m := models[d]
			if d == l.GetDomain() {
				def = m
			}
			if m == nil {
				if l2.IsTranslatedD(d, "x") || l2.GetD(d, "x") != "x" {
					t.Failf("domains", "domain %q appeared", d)
					return
				}
				continue
			}
			ps := m.probes(r, 1)
			if !t.compare("lookup", m, localeCat{l2, d}, ps) {
				return
			}
			tr := l2.Domains[d]
			if tr == nil {
				t.Failf("domains", "domain %q is missing", d)
				return
			}
			if e := diffEntries(snapshot(tr.GetDomain()), m.Entries, snapOpt{noDirty: true}); e != "" {
				t.Failf("entries", "restored domain %q: %s", d, e)
				return
			}
			if e := m.diffHeaders(tr.GetDomain()); e != "" {
				t.Failf("headers", "restored domain %q: %s", d, e)
				return
			}
			if po, ok := tr.(*gotext.Po); ok {
				if e := m.diffHeaders(po); e != "" {
					t.Failf("headers", "restored domain %q: %s", d, e)
					return
				}
			}
			a, _ := l.Domains[d].GetDomain().MarshalText()
			b, _ := tr.GetDomain().MarshalText()
			if noComments(a) != noComments(b) {
				t.Failf("export", "restored domain %q exports %s, the original %s", d, quote(b), quote(a))
				return
			}
			mm := m.clone()
			t.editSome(mm, tr.GetDomain(), 3)
			t.Count("edited_after", 1)
			if !t.compare("edited", mm, localeCat{l2, d}, mm.probes(r, 0)) {
				return
			}
			models[d] = mm
			o := genCatalogue(r, GenOpt{Max: 5, NoHeader: true, Partial: true, KeyPool: mm.keys()})
			tr.Parse(o.RenderPO(r))
			mm.load(o)
			t.Count("loaded_after", 1)
			if !t.compare("loaded", mm, localeCat{l2, d}, mm.probes(r, 0)) {
				return
			}
			if d == l.GetDomain() {
				def = mm
			}
		}
		if def != nil && !t.compare("default", def, localeDefault{l2}, def.probes(r, 0)) {
			return
		}
		// the restored locale loads files and takes translators
		if !ownFS {
			late := newModel()
			late.Entries[Key{"", "late"}] = &Entry{ID: "late", Forms: map[int]string{0: "loaded after"}}
			writeFile(filepath.Join(root, []string{"xx_YY/LC_MESSAGES", "xx/LC_MESSAGES", "xx_YY", "xx"}[r.Intn(4)], "later.po"), late.RenderPO(r))
			l2.AddDomain("later")
			t.Count("files_after", 1)
			if g := l2.GetD("later", "late"); g != "loaded after" {
				t.Failf("usable", "a file loaded by the restored locale answers %q", g)
				return
			}
		}
		po := gotext.NewPo()
		po.Set("new", "translator")
		l2.AddTranslator("t", po)
		if g := l2.GetD("t", "new"); g != "translator" {
			t.Failf("usable", "a translator added to a restored locale answers %q", g)
			return
		}
		if _, err := l2.MarshalBinary(); err != nil {
			t.Failf("usable", "marshal again: %v", err)
			return
		}
		t.Eval()
		t.Distinct(string(bin))
	})
	c.Cases("damaged", c.N(6000, 200000), par(), func(t *T) {
		r := t.R
		ed, m := build(t, false)
		bin, err := ed.MarshalBinary()
		if err != nil {
			t.Failf("marshal", "%v", err)
			return
		}
		isLoc := r.Intn(3) == 0
		if isLoc {
			l := gotext.NewLocale("p", "xx")
			po := gotext.NewPo()
			po.UnmarshalBinary(bin)
			l.AddTranslator("d", po)
			if r.Intn(2) == 0 {
				bin, _ = l.MarshalBinary()
			} else {
				// good outside, damaged inside
				var b bytes.Buffer
				gob.NewEncoder(&b).Encode(&gotext.LocaleEncoding{Path: "p", Lang: "xx", DefaultDomain: "d", Domains: map[string][]byte{"d": mutate(r, bin, 1+r.Intn(4)), "e": bin[:r.Intn(len(bin))]}})
				bin = b.Bytes()
			}
		}
		for i := 0; i < 6; i++ {
			bad := mutate(r, bin, 1+r.Intn(6))
			switch r.Intn(6) {
			case 0:
				bad = bin[:r.Intn(len(bin)+1)]
			case 1:
				bad = make([]byte, r.Intn(300))
				r.Read(bad)
			case 2:
				bad = append(append([]byte(nil), bin...), bad...)
			case 3:
				// something else serialised
				var b bytes.Buffer
				x := []interface{}{42, "str", map[string]int{"a": 1}, &gotext.Translation{ID: "x"}, &gotext.LocaleEncoding{}, &gotext.TranslatorEncoding{Plural: "n %"}, &gotext.TranslatorEncoding{Contexts: map[string]map[string]*gotext.Translation{"c": {}, "d": nil, "e": {"x": {ID: "y"}}}, Translations: map[string]*gotext.Translation{"z": {ID: "other"}, "": {}}}}[r.Intn(7)]
				gob.NewEncoder(&b).Encode(x)
				bad = b.Bytes()
			}
			t.mu.Lock()
			t.log = t.log[:0]
			t.mu.Unlock()
			t.Logf("damaged: %q", bad)
			if hugeClaim(bad) {
				t.Count("left_to_claims", 1)
				continue
			}
			if isLoc {
				l := gotext.NewLocale("q", "yy")
				old := genCatalogue(r, GenOpt{Max: 3, KeyPool: m.keys(), NoRule: true, NoHeader: true})
				tag(old, "old ")
				tr := gotext.NewPo()
				tr.Parse(old.RenderPO(r))
				l.AddTranslator("before", tr)
				err := l.UnmarshalBinary(bad)
				t.damage(err)
				if err != nil {
					// refused: nothing has changed
					if l.GetLanguage() != "yy" || l.GetDomain() != "before" || len(l.Domains) != 1 || l.Domains["before"] != gotext.Translator(tr) {
						t.Failf("refused", "a locale that refuses damaged input (%v) has the language %q, domain %q and domains %v", err, l.GetLanguage(), l.GetDomain(), l.Domains)
						return
					}
					if !t.compare("refused", old, localeCat{l, "before"}, old.probes(r, 1)) {
						return
					}
					t.Count("unchanged_after_refusal", 1)
				}
				for _, d := range []string{"d", "e", "before", ""} {
					for _, p := range m.probes(r, 0) {
						l.GetD(d, p.ID)
						l.GetND(d, p.ID, p.Plural, p.N)
						l.GetDC(d, p.ID, p.Ctx)
						l.GetNDC(d, p.ID, p.Plural, p.N, p.Ctx)
						l.IsTranslatedND(d, p.ID, p.N)
						l.IsTranslatedNDC(d, p.ID, p.N, p.Ctx)
					}
				}
				l.GetTranslations()
				l.MarshalBinary()
				po := gotext.NewPo()
				po.Set("new", "tr")
				l.AddTranslator("n", po)
				l.SetDomain("n")
				if l.Get("new") != "tr" {
					t.Failf("usable", "a locale given damaged input (%v) does not work any more", err)
					return
				}
				for _, tr := range l.Domains {
					exercise(tr.GetDomain(), tr.GetDomain())
				}
				continue
			}
			po := gotext.NewPo()
			before := r.Intn(2) == 0
			if before {
				po.Set("before", "it")
			}
			err := po.UnmarshalBinary(bad)
			t.damage(err)
			if err != nil {
				old := newModel()
				if before {
					old.apply(Edit{Op: "Set", K: Key{"", "before"}, Val: "it"})
				}
				if !t.state("refused", old, po, false) {
					return
				}
				t.Count("unchanged_after_refusal", 1)
			}
			exercise(po, po.GetDomain())
			usable(t, po, po, func(b []byte) { po.Parse(b) }, func(m *Model) []byte { return m.RenderPO(r) })
			if t.Failed() {
				return
			}
		}
		t.Eval()
		t.Distinct(string(bin))
	})
}

// hugeClaim tells whether the bytes hold a gob number of four bytes or more. Taken as the size of a
// map, the gob package of this Go release allocates that much at once, and the process ends: that is
// the finding which the group "claims" observes, in a process of its own.
func hugeClaim(b []byte) bool {
	for _, c := range b {
		if c >= 0xf8 && c <= 0xfc {
			return true
		}
	}
	return false
}

// runClaims writes a number of four thousand million at every place of serialised objects.
func runClaims(c *C) {
	po := gotext.NewPo()
	po.Parse([]byte("msgid \"\"\nmsgstr \"Language: xx\\n\"\n\n#: a:1\nmsgid \"a\"\nmsgstr \"b\"\n\nmsgctxt \"c\"\nmsgid \"d\"\nmsgid_plural \"e\"\nmsgstr[0] \"f\"\nmsgstr[1] \"g\"\n"))
	l := gotext.NewLocale("", "xx")
	l.AddTranslator("d", po)
	self, _ := os.Executable()
	for _, kind := range []string{"catalogue", "locale"} {
		bin, _ := po.MarshalBinary()
		if kind == "locale" {
			bin, _ = l.MarshalBinary()
		}
		step := c.N(3, 1)
		c.Cases("claims-"+kind, len(bin)/step, par(), func(t *T) {
			p := int(t.Index)*step + t.R.Intn(step)
			bad := append([]byte(nil), bin...)
			copy(bad[p:], "\xfc\xff\xff\xff\xfe")
			t.Logf("%s: %q", kind, bad)
			out, err := exec.Command(self, "claims", kind, fmt.Sprintf("%x", bad)).CombinedOutput()
			t.Count("claims", 1)
			t.Eval()
			if err == nil {
				return
			}
			key := "crash-on-claim"
			if strings.Contains(string(out), "out of memory") && strings.Contains(string(out), "gob.(*Decoder).decodeMap") {
				key = "gob-map-size"
			}
			t.Failf(key, "damaged input that claims a map of four thousand million entries ends the process: %v", crashLine(string(out)))
		})
	}
}

// claimsMain restores one damaged object with little memory at hand.
func claimsMain(args []string) {
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	b, err := hex.DecodeString(args[1])
	if err != nil {
		os.Exit(3)
	}
	if args[0] == "locale" {
		gotext.NewLocale("", "").UnmarshalBinary(b)
	} else {
		gotext.NewPo().UnmarshalBinary(b)
	}
}

func (t *T) damage(err error) {
	if err != nil {
		t.Count("damaged_refused", 1)
	} else {
		t.Count("damaged_accepted", 1)
	}
}

// editSome makes random edits in both.
func (t *T) editSome(m *Model, ed editable, n int) {
	r := t.R
	for i := 0; i < n; i++ {
		ks := m.keys()
		k := genKey(r, &GenOpt{Hostile: true}, ks)
		if len(ks) > 0 && r.Intn(3) > 0 {
			k = ks[r.Intn(len(ks))]
		}
		applyEdit(t, m, ed, randomSet(r, m, k, fmt.Sprintf("edited %d", i)))
	}
}

// noComments leaves out what stands before the header.
func noComments(b []byte) string {
	if i := bytes.Index(b, []byte("msgid \"\"\nmsgstr")); i >= 0 {
		return string(b[i:])
	}
	return string(b)
}
