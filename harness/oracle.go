package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/leonelquinteros/gotext"
)

// catalog is what PO, MO and domain objects have in common.
type catalog interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
}

// editable adds the editing calls.
type editable interface {
	catalog
	Set(id, str string)
	SetN(id, plural string, n int, str string)
	SetC(id, ctx, str string)
	SetNC(id, plural, ctx string, n int, str string)
	SetRefs(str string, refs []string)
	GetRefs(str string) []string
	DropStaleTranslations()
	SetPluralResolver(f func(int) int)
	MarshalText() ([]byte, error)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary(data []byte) error
}

var (
	_ editable = (*gotext.Po)(nil)
	_ editable = (*gotext.Domain)(nil)
	_ catalog  = (*gotext.Mo)(nil)
)

// Probe is one message to ask for.
type Probe struct {
	Ctx, ID, Plural string
	N               int
}

func (p Probe) String() string {
	return fmt.Sprintf("ctx=%q id=%q plural=%q n=%d", p.Ctx, p.ID, p.Plural, p.N)
}

// probes lists questions about everything in the model and much that is not.
func (m *Model) probes(r *rand.Rand, extraCounts int) []Probe {
	var out []Probe
	es := m.sorted()
	ask := es
	if len(es) > 1500 {
		ask = nil
		for i := 0; i < 1200; i++ {
			ask = append(ask, es[r.Intn(len(es))])
		}
	}
	for _, e := range ask {
		pl := e.Plural
		if pl == "" {
			pl = e.ID + " (plural)"
		}
		for _, n := range m.counts(r, extraCounts) {
			out = append(out, Probe{e.Ctx, e.ID, pl, n})
		}
		// same message elsewhere
		o := es[r.Intn(len(es))]
		for _, k := range []Key{{"", e.ID}, {o.Ctx, e.ID}, {e.Ctx, o.ID}, {e.ID, e.Ctx}, {"", e.Ctx + e.ID}, {"", e.Ctx + "\x04" + e.ID}, {e.Ctx, e.Plural}, {"", e.Forms[0]}, {e.Ctx + " ", e.ID}, {e.Ctx, e.ID + " "}, {e.Ctx, e.ID + "\x00" + e.Plural}, {strings.TrimSpace(e.Ctx), strings.TrimSpace(e.ID)}} {
			if k.ID == "" {
				continue
			}
			pl := k.ID + "es"
			if x := m.Entries[k]; x != nil && x.Plural != "" {
				pl = x.Plural
			}
			out = append(out, Probe{k.Ctx, k.ID, pl, r.Intn(4)})
		}
	}
	for i := 0; i < 3; i++ {
		out = append(out, Probe{"", fmt.Sprintf("unknown %d", i), "unknowns", i}, Probe{"nowhere", fmt.Sprintf("unknown %d", i), "unknowns", i})
	}
	return out
}

// diff asks one object and compares with the model. Empty is equal.
func (m *Model) diff(o catalog, p Probe) string {
	var bad []string
	eq := func(what, got, want string) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s: got %q, want %q", what, got, want))
		}
	}
	eqb := func(what string, got, want bool) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s: got %v, want %v", what, got, want))
		}
	}
	if p.Ctx == "" {
		eq("Get", o.Get(p.ID), m.get("", p.ID))
		eq("GetN", o.GetN(p.ID, p.Plural, p.N), m.getN("", p.ID, p.Plural, p.N))
		eq("Append", string(o.Append([]byte("<"), p.ID)), "<"+m.get("", p.ID))
		eq("AppendN", string(o.AppendN([]byte("<"), p.ID, p.Plural, p.N)), "<"+m.getN("", p.ID, p.Plural, p.N))
		eqb("IsTranslated", o.IsTranslated(p.ID), m.isT("", p.ID))
		eqb("IsTranslatedN", o.IsTranslatedN(p.ID, p.N), m.isTN("", p.ID, p.N))
	} else {
		eq("GetC", o.GetC(p.ID, p.Ctx), m.get(p.Ctx, p.ID))
		eq("GetNC", o.GetNC(p.ID, p.Plural, p.N, p.Ctx), m.getN(p.Ctx, p.ID, p.Plural, p.N))
		eq("AppendC", string(o.AppendC([]byte("<"), p.ID, p.Ctx)), "<"+m.get(p.Ctx, p.ID))
		eq("AppendNC", string(o.AppendNC([]byte("<"), p.ID, p.Plural, p.N, p.Ctx)), "<"+m.getN(p.Ctx, p.ID, p.Plural, p.N))
		eqb("IsTranslatedC", o.IsTranslatedC(p.ID, p.Ctx), m.isT(p.Ctx, p.ID))
		eqb("IsTranslatedNC", o.IsTranslatedNC(p.ID, p.N, p.Ctx), m.isTN(p.Ctx, p.ID, p.N))
	}
	return strings.Join(bad, "; ")
}

// compare asks all the probes.
func (t *T) compare(key string, m *Model, o catalog, ps []Probe) bool {
	for _, p := range ps {
		t.Count("lookups", 6)
		if d := m.diff(o, p); d != "" {
			t.Failf(key, "%v: %s", p, d)
			return false
		}
	}
	t.Eval()
	return true
}

// snapshot is what the exported queries tell of an object, in comparable form.
func snapshot(d *gotext.Domain) map[Key]*Entry {
	out := map[Key]*Entry{}
	put := func(ctx, id string, tr *gotext.Translation) {
		e := &Entry{Ctx: ctx, ID: tr.ID, Plural: tr.PluralID, Forms: map[int]string{}, Dirty: !tr.IsStale()}
		for k, v := range tr.Trs {
			e.Forms[k] = v
		}
		e.Refs = append(e.Refs, tr.Refs...)
		out[Key{ctx, id}] = e
	}
	for id, tr := range d.GetTranslations() {
		if id != "" {
			put("", id, tr)
		}
	}
	for ctx, es := range d.GetCtxTranslations() {
		for id, tr := range es {
			put(ctx, id, tr)
		}
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type snapOpt struct{ noRefs, noDirty, noEmpty bool }

// diffEntries compares two sets of entries.
func diffEntries(got, want map[Key]*Entry, o snapOpt) string {
	nonEmpty := func(f map[int]string) map[int]string {
		if !o.noEmpty {
			return f
		}
		c := map[int]string{}
		for k, v := range f {
			if v != "" {
				c[k] = v
			}
		}
		return c
	}
	for k, w := range want {
		g := got[k]
		if g == nil {
			return fmt.Sprintf("entry %q is missing", k)
		}
		if g.ID != w.ID || g.Plural != w.Plural {
			return fmt.Sprintf("entry %q: id %q plural %q, want %q %q", k, g.ID, g.Plural, w.ID, w.Plural)
		}
		gf, wf := nonEmpty(g.Forms), nonEmpty(w.Forms)
		if fmt.Sprint(sortedForms(gf)) != fmt.Sprint(sortedForms(wf)) {
			return fmt.Sprintf("entry %q: forms %q, want %q", k, gf, wf)
		}
		if !o.noRefs && !sameStrings(g.Refs, w.Refs) {
			return fmt.Sprintf("entry %q: refs %q, want %q", k, g.Refs, w.Refs)
		}
		if !o.noDirty && g.Dirty != w.Dirty {
			return fmt.Sprintf("entry %q: touched=%v, want %v", k, g.Dirty, w.Dirty)
		}
	}
	for k, g := range got {
		if want[k] == nil {
			return fmt.Sprintf("entry %q should not exist (forms %q)", k, g.Forms)
		}
	}
	return ""
}

func sortedForms(f map[int]string) []string {
	var ks []int
	for k := range f {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%d=%q", k, f[k]))
	}
	return out
}

// quiet keeps the library's own messages away from the result.
func quote(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return fmt.Sprintf("%q", bytes.ToValidUTF8(b, []byte("?")))
}

func domainOf(o interface{}) *gotext.Domain {
	switch x := o.(type) {
	case *gotext.Po:
		return x.GetDomain()
	case *gotext.Mo:
		return x.GetDomain()
	case *gotext.Domain:
		return x
	}
	return nil
}

func headersOf(o interface{}) (gotext.HeaderMap, string, string) {
	switch x := o.(type) {
	case *gotext.Po:
		return x.Headers, x.Language, x.PluralForms
	case *gotext.Mo:
		return x.Headers, x.Language, x.PluralForms
	case *gotext.Domain:
		return x.Headers, x.Language, x.PluralForms
	}
	return nil, "", ""
}

// diffHeaders compares the headers of an object with the model.
func (m *Model) diffHeaders(o interface{}) string {
	hm, lang, pf := headersOf(o)
	want := map[string][]string{}
	for _, h := range m.Headers {
		want[h.K] = append(want[h.K], h.V)
	}
	for k, v := range want {
		if !sameStrings(hm.Values(k), v) {
			return fmt.Sprintf("header %q: got %q, want %q", k, hm.Values(k), v)
		}
		if hm.Get(k) != v[0] {
			return fmt.Sprintf("header Get(%q): got %q, want %q", k, hm.Get(k), v[0])
		}
	}
	for k := range hm {
		if want[k] == nil {
			return fmt.Sprintf("header %q = %q is not in the file", k, hm[k])
		}
	}
	if w := m.headerFold("Language"); lang != w {
		return fmt.Sprintf("Language: got %q, want %q", lang, w)
	}
	if w := m.headerFold("Plural-Forms"); pf != w {
		return fmt.Sprintf("PluralForms: got %q, want %q", pf, w)
	}
	return ""
}
