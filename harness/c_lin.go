package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C16", Race: true, Rule: "concurrent edits (Set, SetN, SetC, SetNC, SetRefs, DropStaleTranslations), loads, lookups, appends, queries, snapshots and exports on one PO or domain object with a fixed two-form rule; calls and returns are stamped and porcupine searches for an order of the calls in which a plain keyed store gives the same answers; groups: many fresh messages edited by all goroutines at the very same moment (also the first ones of a new context), long mixed histories judged message by message, short ones judged for the whole object at once; distinct by the observed answers and order",
		Need:   []string{"histories", "overlapping_calls", "edits", "lookups", "whole_snapshots", "loads", "drops", "creations"},
		Assume: []string{"edits of a plural form compute the form before they take effect; the plural rule therefore does not change during these histories", "histories that the search cannot settle in its time are counted as unknown and not judged"},
		Run:    runC16})
}

// kst is what the keyed store holds for one message.
type kst struct {
	exists, dirty        bool
	f0, f1, plural, refs string
}

func (k kst) String() string {
	if !k.exists {
		return "-"
	}
	return fmt.Sprintf("{%v %q %q %q [%s]}", k.dirty, k.f0, k.f1, k.plural, k.refs)
}

const linMax = 4

type lstate [linMax]kst

// lop is one call of a history.
type lop struct {
	kind   string
	key    int // of a call for one message
	form   int
	val    string
	loaded lstate // of a load
	has    [linMax]bool
}

// lout is its answer.
type lout struct {
	s    string
	ok   bool
	snap lstate
}

// linObject is the object under test with its messages.
type linObject struct {
	keys []Key
	pl   []string
	ed   editable
	dom  *gotext.Domain
	load func(b []byte)
	fill int // other entries in the loads
}

const linHeader = "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"Plural-Forms: nplurals=2; plural=n != 1;\\n\"\n\n"

func newLinObject(r *rand.Rand, keys []Key) *linObject {
	x := &linObject{keys: keys}
	for _, k := range keys {
		x.pl = append(x.pl, k.ID+" (plural)")
	}
	po := gotext.NewPo()
	x.dom = po.GetDomain()
	x.load = po.Parse
	if r.Intn(2) == 0 {
		x.ed = po
	} else {
		x.ed = x.dom
	}
	po.Parse([]byte(linHeader))
	x.fill = []int{0, 0, 30, 200}[r.Intn(4)]
	return x
}

// file renders the entries of a load.
func (x *linObject) file(o *lop) []byte {
	var b strings.Builder
	b.WriteString(linHeader)
	fill := func(n int, tag string) {
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "msgid \"%s filler %d\"\nmsgstr \"x\"\n\n", tag, i)
		}
	}
	for i, k := range x.keys {
		fill(x.fill/len(x.keys), fmt.Sprint(i))
		if !o.has[i] {
			continue
		}
		s := o.loaded[i]
		for _, ref := range strings.Fields(s.refs) {
			fmt.Fprintf(&b, "#: %s\n", ref)
		}
		if k.Ctx != "" {
			fmt.Fprintf(&b, "msgctxt \"%s\"\n", k.Ctx)
		}
		fmt.Fprintf(&b, "msgid \"%s\"\n", k.ID)
		if s.plural != "" {
			fmt.Fprintf(&b, "msgid_plural \"%s\"\nmsgstr[0] \"%s\"\nmsgstr[1] \"%s\"\n\n", s.plural, s.f0, s.f1)
		} else {
			fmt.Fprintf(&b, "msgstr \"%s\"\n\n", s.f0)
		}
	}
	return []byte(b.String())
}

// call performs the operation on the library.
func (x *linObject) call(o *lop, data []byte) (out lout) {
	if len(data) > 0 && o.kind == "load" {
		x.load(data)
		return
	}
	k, pl := x.keys[o.key], x.pl[o.key]
	n := 1 + 4*o.form // 1 takes form 0, 5 takes form 1
	switch o.kind {
	case "set":
		if k.Ctx == "" {
			x.ed.Set(k.ID, o.val)
		} else {
			x.ed.SetC(k.ID, k.Ctx, o.val)
		}
	case "setn":
		if k.Ctx == "" {
			x.ed.SetN(k.ID, pl, n, o.val)
		} else {
			x.ed.SetNC(k.ID, pl, k.Ctx, n, o.val)
		}
	case "setrefs":
		x.ed.SetRefs(k.ID, strings.Fields(o.val))
	case "drop":
		x.ed.DropStaleTranslations()
	case "get":
		if k.Ctx == "" {
			out.s = x.ed.Get(k.ID)
		} else {
			out.s = x.ed.GetC(k.ID, k.Ctx)
		}
	case "append":
		if k.Ctx == "" {
			out.s = string(x.ed.Append(nil, k.ID))
		} else {
			out.s = string(x.ed.AppendC(nil, k.ID, k.Ctx))
		}
	case "getn":
		if k.Ctx == "" {
			out.s = x.ed.GetN(k.ID, pl, n)
		} else {
			out.s = x.ed.GetNC(k.ID, pl, n, k.Ctx)
		}
	case "appendn":
		if k.Ctx == "" {
			out.s = string(x.ed.AppendN(nil, k.ID, pl, n))
		} else {
			out.s = string(x.ed.AppendNC(nil, k.ID, pl, n, k.Ctx))
		}
	case "ist":
		if k.Ctx == "" {
			out.ok = x.ed.IsTranslated(k.ID)
		} else {
			out.ok = x.ed.IsTranslatedC(k.ID, k.Ctx)
		}
	case "istn":
		if k.Ctx == "" {
			out.ok = x.ed.IsTranslatedN(k.ID, n)
		} else {
			out.ok = x.ed.IsTranslatedNC(k.ID, n, k.Ctx)
		}
	case "getrefs":
		out.s = strings.Join(x.ed.GetRefs(k.ID), " ")
	case "snap":
		all := x.dom.GetTranslations()
		for i, k := range x.keys {
			if k.Ctx == "" {
				out.snap[i] = kstOf(all[k.ID])
			}
		}
	case "snapc":
		all := x.dom.GetCtxTranslations()
		for i, k := range x.keys {
			if k.Ctx != "" {
				out.snap[i] = kstOf(all[k.Ctx][k.ID])
			}
		}
	case "text":
		b, err := x.ed.MarshalText()
		if err != nil {
			out.s = err.Error()
			return
		}
		items, err := strictPO(b)
		if err != nil {
			out.s = "export is not PO: " + err.Error()
			return
		}
		es, _ := poEntries(items)
		for i, k := range x.keys {
			if e := es[k]; e != nil {
				out.snap[i] = kst{exists: true, f0: e.Forms[0], f1: e.Forms[1], plural: e.Plural, refs: strings.Join(e.Refs, " ")}
			}
		}
	case "binary":
		b, err := x.ed.MarshalBinary()
		if err != nil {
			out.s = err.Error()
			return
		}
		d := gotext.NewDomain()
		if err := d.UnmarshalBinary(b); err != nil {
			out.s = err.Error()
			return
		}
		all, ctx := d.GetTranslations(), d.GetCtxTranslations()
		for i, k := range x.keys {
			tr := all[k.ID]
			if k.Ctx != "" {
				tr = ctx[k.Ctx][k.ID]
			}
			out.snap[i] = kstOf(tr)
		}
	}
	return
}

func kstOf(tr *gotext.Translation) kst {
	if tr == nil {
		return kst{}
	}
	return kst{exists: true, dirty: !tr.IsStale(), f0: tr.Trs[0], f1: tr.Trs[1], plural: tr.PluralID, refs: strings.Join(tr.Refs, " ")}
}

// step is the keyed store. only >= 0 looks at one message alone.
func (x *linObject) step(st lstate, o *lop, out lout, only int) (bool, lstate) {
	k := &st[o.key]
	id, pl := x.keys[o.key].ID, x.pl[o.key]
	read := func(f int) string {
		v := k.f0
		if f == 1 {
			v = k.f1
		}
		if k.exists && v != "" {
			return v
		}
		if f == 0 {
			return id
		}
		if k.exists && k.plural != "" {
			return k.plural
		}
		return pl
	}
	snap := func(see func(i int) bool, dirty bool) bool {
		if out.s != "" {
			return false
		}
		for i := range x.keys {
			if !see(i) || (only >= 0 && i != only) {
				continue
			}
			a, b := out.snap[i], st[i]
			if !dirty {
				a.dirty, b.dirty = false, false
			}
			if a != b {
				return false
			}
		}
		return true
	}
	switch o.kind {
	case "set":
		k.exists, k.dirty, k.f0 = true, true, o.val
	case "setn":
		if k.plural == "" {
			k.plural = pl
		}
		k.exists, k.dirty = true, true
		if o.form == 0 {
			k.f0 = o.val
		} else {
			k.f1 = o.val
		}
	case "setrefs":
		k.exists, k.dirty, k.refs = true, true, o.val
	case "drop":
		for i := range st {
			if !st[i].dirty {
				st[i] = kst{}
			}
		}
	case "load":
		for i := range st {
			if o.has[i] {
				st[i] = o.loaded[i]
			}
		}
	case "get", "append":
		return out.s == read(0), st
	case "getn", "appendn":
		return out.s == read(o.form), st
	case "ist":
		return out.ok == (k.f0 != ""), st
	case "istn":
		return out.ok == ((o.form == 0 && k.f0 != "") || (o.form == 1 && k.f1 != "")), st
	case "getrefs":
		return out.s == k.refs, st
	case "snap":
		return snap(func(i int) bool { return x.keys[i].Ctx == "" }, true), st
	case "snapc":
		return snap(func(i int) bool { return x.keys[i].Ctx != "" }, true), st
	case "text", "binary":
		return snap(func(i int) bool { return true }, false), st
	}
	return true, st
}

var multi = map[string]bool{"drop": true, "load": true, "snap": true, "snapc": true, "text": true, "binary": true}

// touches tells whether the call says anything about message i.
func (x *linObject) touches(o *lop, i int) bool {
	switch o.kind {
	case "drop", "text", "binary":
		return true
	case "load":
		return o.has[i]
	case "snap":
		return x.keys[i].Ctx == ""
	case "snapc":
		return x.keys[i].Ctx != ""
	}
	return o.key == i
}

func (x *linObject) genOp(r *rand.Rand, kinds []string, who string) *lop {
	o := &lop{kind: kinds[r.Intn(len(kinds))], key: r.Intn(len(x.keys)), form: r.Intn(2), val: who}
	switch o.kind {
	case "set", "setn":
		if r.Intn(12) == 0 {
			o.val = ""
		}
	case "setrefs", "getrefs":
		o.val = who + ".go:1 b.go:2"
		if x.keys[o.key].Ctx != "" {
			// references are set for messages without context only
			o.kind = map[string]string{"setrefs": "set", "getrefs": "get"}[o.kind]
			o.val = who
		}
	case "load":
		for i := range x.keys {
			if r.Intn(5) == 0 {
				continue
			}
			o.has[i] = true
			s := kst{exists: true, f0: fmt.Sprintf("%s.%d.f0", who, i)}
			if r.Intn(2) == 0 {
				s.plural = x.pl[i]
				s.f1 = fmt.Sprintf("%s.%d.f1", who, i)
			}
			if r.Intn(6) == 0 {
				s.f0 = ""
			}
			if r.Intn(2) == 0 {
				s.refs = who + ".c:1"
			}
			o.loaded[i] = s
		}
	}
	return o
}

type lcall struct {
	op       *lop
	out      lout
	from, to int64
	who      int
}

func (x *linObject) describe(c lcall) string {
	o := c.op
	s := fmt.Sprintf("[%d..%d] g%d %s", c.from, c.to, c.who, o.kind)
	if !multi[o.kind] {
		s += fmt.Sprintf(" %v", x.keys[o.key])
	}
	switch o.kind {
	case "set", "setrefs":
		s += fmt.Sprintf(" %q", o.val)
	case "setn":
		s += fmt.Sprintf(" form %d %q", o.form, o.val)
	case "get", "append", "getrefs":
		s += fmt.Sprintf(" -> %q", c.out.s)
	case "getn", "appendn":
		s += fmt.Sprintf(" form %d -> %q", o.form, c.out.s)
	case "ist":
		s += fmt.Sprintf(" -> %v", c.out.ok)
	case "istn":
		s += fmt.Sprintf(" form %d -> %v", o.form, c.out.ok)
	case "load":
		for i := range x.keys {
			if o.has[i] {
				s += fmt.Sprintf(" %v=%v", x.keys[i], o.loaded[i])
			}
		}
	case "snap", "snapc", "text", "binary":
		s += " -> " + c.out.s
		for i := range x.keys {
			s += fmt.Sprintf(" %v=%v", x.keys[i], c.out.snap[i])
		}
	}
	return s
}

// judge searches for an order of the calls. only >= 0 looks at one message.
func (x *linObject) judge(t *T, init lstate, calls []lcall, only int) bool {
	m := porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			ok, ns := x.step(st.(lstate), in.(*lop), out.(lout), only)
			return ok, ns
		},
	}
	var ops []porcupine.Operation
	for _, c := range calls {
		ops = append(ops, porcupine.Operation{ClientId: c.who, Input: c.op, Call: c.from, Output: c.out, Return: c.to})
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) {
	case porcupine.Unknown:
		t.Count("unknown", 1)
		return true
	case porcupine.Illegal:
		sort.SliceStable(calls, func(i, j int) bool { return calls[i].from < calls[j].from })
		t.Logf("at the start: %v", init[:len(x.keys)])
		for _, c := range calls {
			t.Logf("%s", x.describe(c))
		}
		what := "of the object"
		if only >= 0 {
			what = fmt.Sprintf("of message %v", x.keys[only])
		}
		t.Failf("order", "no order of these %d calls explains the answers %s", len(calls), what)
		return false
	}
	t.Count("histories", 1)
	t.Eval()
	return true
}

func (x *linObject) account(t *T, calls []lcall) {
	sort.Slice(calls, func(i, j int) bool { return calls[i].from < calls[j].from })
	over := int64(0)
	var end int64
	var b strings.Builder
	for _, c := range calls {
		if c.from < end {
			over++
		}
		if c.to > end {
			end = c.to
		}
		fmt.Fprintf(&b, "%d%s%s%v;", c.who, c.op.kind, c.out.s, c.out.ok)
		switch c.op.kind {
		case "set", "setn", "setrefs":
			t.Count("edits", 1)
		case "snap", "snapc", "text", "binary":
			t.Count("whole_snapshots", 1)
		case "load":
			t.Count("loads", 1)
		case "drop":
			t.Count("drops", 1)
		default:
			t.Count("lookups", 1)
		}
	}
	t.Count("overlapping_calls", over)
	t.Distinct(t.Group, b.String())
}

// spinBarrier lets goroutines go on at the same moment, without handing over the processor.
type spinBarrier struct {
	n, have, gen atomic.Int64
}

func (b *spinBarrier) wait() {
	g := b.gen.Load()
	if b.have.Add(1) == b.n.Load() {
		b.have.Store(0)
		b.gen.Add(1)
		return
	}
	for i := 0; b.gen.Load() == g; i++ {
		if i > 2000 {
			runtime.Gosched()
		}
	}
}

func runC16(c *C) {
	readKinds := []string{"get", "append", "getn", "appendn", "ist", "istn", "getrefs"}
	editKinds := []string{"set", "setn", "setrefs", "set", "setn"}

	// fresh messages, edited by everybody at once
	c.Cases("create", c.N(24, 600), 1, func(t *T) {
		const workers = 5
		rounds := 60
		for round := 0; round < rounds && !t.Failed(); round++ {
			ctx := ""
			if t.R.Intn(2) == 0 {
				ctx = fmt.Sprintf("ctx%d", round)
			}
			keys := []Key{{ctx, fmt.Sprintf("a%d", round)}, {ctx, fmt.Sprintf("b%d", round)}}
			if t.R.Intn(3) == 0 {
				keys = keys[:1]
			}
			x := newLinObject(t.R, keys)
			x.fill = 0
			kinds := append(append([]string{}, editKinds...), editKinds...)
			kinds = append(kinds, readKinds...)
			if t.R.Intn(3) == 0 {
				kinds = append(kinds, "drop", "load", "snap", "snapc")
			}
			var bar spinBarrier
			bar.n.Store(workers)
			var clock atomic.Int64
			res := make([][]lcall, workers)
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				var ops []*lop
				var data [][]byte
				for i := 0; i < 2; i++ {
					o := x.genOp(t.R, kinds, fmt.Sprintf("v%d_%d", w, i))
					ops = append(ops, o)
					data = append(data, x.file(o))
				}
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i, o := range ops {
						bar.wait()
						from := clock.Add(1)
						out := x.call(o, data[i])
						res[w] = append(res[w], lcall{o, out, from, clock.Add(1), w})
					}
				}(w)
			}
			wg.Wait()
			t.Count("creations", int64(len(keys)))
			var all []lcall
			for _, r := range res {
				all = append(all, r...)
			}
			// what is left
			for i := range keys {
				for _, k := range []lop{{kind: "get"}, {kind: "getn"}, {kind: "getn", form: 1}, {kind: "getrefs"}, {kind: "snap"}, {kind: "snapc"}} {
					o := k
					o.key = i
					if o.kind == "getrefs" && ctx != "" {
						continue
					}
					from := clock.Add(1)
					out := x.call(&o, nil)
					all = append(all, lcall{&o, out, from, clock.Add(1), workers})
				}
			}
			x.account(t, all)
			if !x.judge(t, lstate{}, all, -1) {
				return
			}
		}
	})

	mixed := func(t *T, keys []Key, workers, n int, kinds []string) (*linObject, []lcall) {
		x := newLinObject(t.R, keys)
		var clock atomic.Int64
		res := make([][]lcall, workers)
		var wg sync.WaitGroup
		var bar spinBarrier
		bar.n.Store(int64(workers))
		for w := 0; w < workers; w++ {
			var ops []*lop
			var data [][]byte
			for i := 0; i < n; i++ {
				o := x.genOp(t.R, kinds, fmt.Sprintf("v%d_%d", w, i))
				ops = append(ops, o)
				if o.kind == "load" {
					data = append(data, x.file(o))
				} else {
					data = append(data, nil)
				}
			}
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				bar.wait()
				for i, o := range ops {
					from := clock.Add(1)
					out := x.call(o, data[i])
					res[w] = append(res[w], lcall{o, out, from, clock.Add(1), w})
				}
			}(w)
		}
		wg.Wait()
		var all []lcall
		for _, r := range res {
			all = append(all, r...)
		}
		for _, k := range []string{"snap", "snapc", "text", "binary"} {
			o := &lop{kind: k}
			from := clock.Add(1)
			out := x.call(o, nil)
			all = append(all, lcall{o, out, from, clock.Add(1), workers})
		}
		x.account(t, all)
		return x, all
	}
	keys4 := []Key{{"", "m0"}, {"", "m1"}, {"c", "m0"}, {"c", "m2"}}
	all := append(append(append([]string{}, editKinds...), readKinds...), readKinds...)

	// long histories, message by message
	c.Cases("mix", c.N(120, 4000), 2, func(t *T) {
		kinds := append(append([]string{}, all...), "drop", "load", "snap", "snapc")
		if t.R.Intn(2) == 0 {
			kinds = append(kinds, "text", "binary")
		}
		x, calls := mixed(t, keys4, 4, 40, kinds)
		for i := range keys4 {
			var own []lcall
			for _, c := range calls {
				if x.touches(c.op, i) {
					o := *c.op
					c.op = &o
					if multi[c.op.kind] {
						c.op.key = i
					}
					own = append(own, c)
				}
			}
			if !x.judge(t, lstate{}, own, i) {
				return
			}
		}
		if t.Index < 2 {
			t.Sample(fmt.Sprintf("%d calls by 4 goroutines, e.g. %s; %s; %s", len(calls), x.describe(calls[5]), x.describe(calls[len(calls)/2]), x.describe(calls[len(calls)-1])))
		}
	})

	// short histories of the whole object: loads, drops, snapshots and exports take effect at one instant for all messages
	c.Cases("whole", c.N(250, 8000), 2, func(t *T) {
		kinds := append(append([]string{}, all...), "drop", "load", "load", "snap", "snapc", "text", "binary", "load", "snap", "text")
		ks := keys4[:2+t.R.Intn(3)]
		x, calls := mixed(t, ks, 3+t.R.Intn(2), 9, kinds)
		x.judge(t, lstate{}, calls, -1)
	})
}
