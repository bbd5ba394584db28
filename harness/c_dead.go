package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C19", Race: true, Rule: "lookups whose format arguments (Stringer, Formatter, GoStringer, error; values, pointers, nested in slices, maps and structs) and whose translators (supplied by the user) call the library again while they run: lookups, edits, loads, queries, snapshots, exports, configuration changes on the same catalogue, locale or the package, two levels deep, while a writer has been made to wait; a monitor of all goroutine states reports when nobody can run any more; distinct by outer call, nested calls and writer",
		Need:   []string{"outer_calls", "nested_calls", "callbacks", "writers", "translator_callbacks", "package_calls"},
		Assume: []string{"custom plural resolvers and file systems that call the library back are not part of this property"},
		Run:    runC19})
}

// caller calls f when it is formatted.
type caller struct{ f func() string }

func (c caller) String() string   { return c.f() }
func (c caller) GoString() string { return c.f() }
func (c caller) Error() string    { return c.f() }

type formatCaller struct{ f func() string }

func (c formatCaller) Format(s fmt.State, v rune) { fmt.Fprint(s, c.f()) }

type stringCaller struct{ f func() string }

func (c *stringCaller) String() string { return c.f() }

// wrapCaller hides f somewhere in a format argument.
func wrapCaller(r *rand.Rand, f func() string) (string, interface{}) {
	switch r.Intn(7) {
	case 0:
		return "error", caller{f}
	case 1:
		return "formatter", formatCaller{f}
	case 2:
		return "pointer", &stringCaller{f}
	case 3:
		return "slice", []interface{}{1, &stringCaller{f}}
	case 4:
		return "map", map[string]fmt.Formatter{"k": formatCaller{f}}
	case 5:
		return "struct", struct {
			A int
			B fmt.Stringer
		}{1, &stringCaller{f}}
	}
	return "stringer", fmt.Stringer(caller{f})
}

// nest describes one nested situation.
type nest struct {
	t       *T
	r       *rand.Rand
	ops     []Op                                                    // everything that can be called
	writers []Op                                                    // what is made to wait
	look    func(r *rand.Rand, arg ...interface{}) (string, string) // an outer lookup
	wg      sync.WaitGroup
	mu      sync.Mutex
	what    []string
	bad     string
	calls   atomic.Int64
	backs   atomic.Int64
	wrote   atomic.Int64
	serial  bool
}

func (n *nest) note(s string) {
	n.mu.Lock()
	n.what = append(n.what, s)
	n.mu.Unlock()
	n.t.Logf("%s", s)
}

func (n *nest) fail(s string) {
	n.mu.Lock()
	if n.bad == "" {
		n.bad = s
	}
	n.mu.Unlock()
}

// back is what runs inside of the library's call.
func (n *nest) back(seed int64, depth int) string {
	r := rand.New(rand.NewSource(seed))
	n.backs.Add(1)
	if r.Intn(4) > 0 {
		// somebody else wants to change things meanwhile
		w := n.writers[r.Intn(len(n.writers))]
		n.note(strings.Repeat("  ", depth) + "writer " + w.Name)
		wr := rand.New(rand.NewSource(r.Int63()))
		started := make(chan struct{})
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			close(started)
			if s := w.F(wr); s != "" {
				n.fail(w.Name + ": " + s)
			}
			n.wrote.Add(1)
		}()
		<-started
		for i := 0; i < 200+r.Intn(2000); i++ {
			runtime.Gosched()
		}
	}
	for i := 0; i <= r.Intn(3); i++ {
		if depth > 0 && r.Intn(3) == 0 {
			n.outer(r, depth-1)
			continue
		}
		o := n.ops[r.Intn(len(n.ops))]
		n.note(strings.Repeat("  ", depth) + "nested " + o.Name)
		if s := o.F(r); s != "" {
			n.fail(o.Name + ": " + s)
		}
		n.calls.Add(1)
	}
	return "called"
}

func (n *nest) outer(r *rand.Rand, depth int) {
	seed := r.Int63()
	ran := 0
	var mu sync.Mutex
	kind, arg := wrapCaller(r, func() string {
		mu.Lock()
		ran++
		first := ran == 1
		mu.Unlock()
		if !first {
			return "called"
		}
		return n.back(seed, depth)
	})
	args := []interface{}{arg}
	if r.Intn(3) == 0 {
		args = []interface{}{1, arg, "x"}
	}
	n.note(strings.Repeat("  ", depth) + "outer with " + kind)
	name, s := n.look(r, args...)
	n.note(strings.Repeat("  ", depth) + "done " + name)
	if !strings.Contains(s, "called") {
		n.fail(fmt.Sprintf("%s: %q lacks the argument", name, s))
	}
}

// run makes the outer call and waits for everybody.
func (n *nest) run(depth, par int) {
	t := n.t
	var wg sync.WaitGroup
	for g := 0; g < par; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(n.r.Int63()))
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					n.fail(fmt.Sprintf("panic: %v", e))
				}
			}()
			n.outer(r, depth)
		}()
	}
	wg.Wait()
	n.wg.Wait()
	t.Count("outer_calls", int64(par))
	t.Count("nested_calls", n.calls.Load())
	t.Count("callbacks", n.backs.Load())
	t.Count("writers", n.wrote.Load())
	t.Distinct(append([]string{t.Group}, n.what...)...)
	if n.bad != "" {
		t.Failf("result", "%s", n.bad)
	}
	t.Eval()
}

func pickOps(ops []Op, kinds ...string) []Op {
	var out []Op
	for _, o := range ops {
		if indexOf(kinds, o.Kind) >= 0 {
			out = append(out, o)
		}
	}
	return out
}

// catLook makes an outer lookup on a catalogue.
func catLook(o catalog) func(r *rand.Rand, arg ...interface{}) (string, string) {
	return func(r *rand.Rand, arg ...interface{}) (string, string) {
		i := 2 * r.Intn(4)
		id, pl, ctx, n := fmt.Sprintf("message %d", i), fmt.Sprintf("messages %d", i), fmt.Sprintf("ctx%d", i/4), r.Intn(5)
		idc := fmt.Sprintf("message %d", i+1)
		if r.Intn(4) == 0 {
			id, idc = "no such %v %v", "no such %+v"
		}
		switch r.Intn(8) {
		case 0:
			return "Get", o.Get(id, arg...)
		case 1:
			return "GetN", o.GetN(id, pl, n, arg...)
		case 2:
			return "GetC", o.GetC(idc, ctx, arg...)
		case 3:
			return "GetNC", o.GetNC(idc, pl, n, ctx, arg...)
		case 4:
			return "Append", string(o.Append(nil, id, arg...))
		case 5:
			return "AppendN", string(o.AppendN(nil, id, pl, n, arg...))
		case 6:
			return "AppendC", string(o.AppendC(nil, idc, ctx, arg...))
		}
		return "AppendNC", string(o.AppendNC(nil, idc, pl, n, ctx, arg...))
	}
}

func callOf(r *rand.Rand, arg []interface{}) PCall {
	i := 2 * r.Intn(4)
	p := PCall{Fn: lookupFns[r.Intn(len(lookupFns))], Dom: []string{"d", "e", "none", "added"}[r.Intn(4)], N: r.Intn(5), Args: arg}
	if p.hasCtx() {
		i++
		p.Ctx = fmt.Sprintf("ctx%d", i/4)
	}
	p.ID, p.Plural = fmt.Sprintf("message %d", i), fmt.Sprintf("messages %d", i)
	if r.Intn(4) == 0 {
		p.ID, p.Plural = "no such %v %v", "no such ones %+v"
	}
	return p
}

// backTranslator is a translator of the user which calls back.
type backTranslator struct {
	gotext.Translator
	f func(what string)
}

func (b *backTranslator) Get(s string, v ...interface{}) string {
	b.f("Get")
	return b.Translator.Get(s, v...)
}
func (b *backTranslator) GetN(s, p string, n int, v ...interface{}) string {
	b.f("GetN")
	return b.Translator.GetN(s, p, n, v...)
}
func (b *backTranslator) GetC(s, c string, v ...interface{}) string {
	b.f("GetC")
	return b.Translator.GetC(s, c, v...)
}
func (b *backTranslator) GetNC(s, p string, n int, c string, v ...interface{}) string {
	b.f("GetNC")
	return b.Translator.GetNC(s, p, n, c, v...)
}
func (b *backTranslator) MarshalBinary() ([]byte, error) {
	b.f("MarshalBinary")
	return b.Translator.MarshalBinary()
}
func (b *backTranslator) GetDomain() *gotext.Domain {
	b.f("GetDomain")
	return b.Translator.GetDomain()
}

// runBack lets a translator call back: each of its methods makes the nested calls once.
func (n *nest) runBack(depth int, use func(bt *backTranslator), call func(r *rand.Rand) string) {
	t := n.t
	var busy atomic.Int64
	seed := n.r.Int63()
	po := gotext.NewPo()
	po.Parse(newRaceKeys().catalogue("t", "n!=1", 2, true).RenderPO(nil))
	bt := &backTranslator{po, func(what string) {
		if k := busy.Add(1); k > 3 {
			return
		} else {
			n.note("translator's " + what + " calls back")
			t.Count("translator_callbacks", 1)
			n.back(seed+k, depth)
		}
	}}
	use(bt)
	name := call(n.r)
	n.note("done " + name)
	n.wg.Wait()
	t.Count("outer_calls", 1)
	t.Count("nested_calls", n.calls.Load())
	t.Count("callbacks", n.backs.Load())
	t.Count("writers", n.wrote.Load())
	t.Distinct(append([]string{t.Group}, n.what...)...)
	if n.bad != "" {
		t.Failf("result", "%s", n.bad)
	}
	t.Eval()
}

func runC19(c *C) {
	catKinds := []string{"po", "mo", "domain"}
	locKinds := []string{"dir", "fs", "zero"}
	c.Cases("catalogue", c.N(1200, 30000), par(), func(t *T) {
		ops, o := catalogueOpsOf(t, catKinds[t.R.Intn(3)])
		n := &nest{t: t, r: t.R, ops: ops, writers: pickOps(ops, "loads", "edits", "drops"), look: catLook(o)}
		n.run(t.R.Intn(3), 1+t.R.Intn(3)/2)
		cleanScratch(t)
	})
	c.Cases("locale", c.N(700, 16000), par(), func(t *T) {
		ops, l := localeOpsOf(t, locKinds[t.R.Intn(3)])
		n := &nest{t: t, r: t.R, ops: ops, writers: pickOps(ops, "reloads", "settings"), look: func(r *rand.Rand, arg ...interface{}) (string, string) {
			p := callOf(r, arg)
			return p.Fn, locLookup(l, p)
		}}
		n.run(t.R.Intn(3), 1+t.R.Intn(3)/2)
		cleanScratch(t)
	})
	c.Cases("locale-translator", c.N(700, 16000), par(), func(t *T) {
		ops, l := localeOpsOf(t, locKinds[t.R.Intn(3)])
		n := &nest{t: t, r: t.R, ops: ops, writers: pickOps(ops, "reloads", "settings")}
		n.look = func(r *rand.Rand, arg ...interface{}) (string, string) {
			p := callOf(r, arg)
			return p.Fn, locLookup(l, p)
		}
		n.runBack(t.R.Intn(2), func(bt *backTranslator) {
			l.AddTranslator("added", bt)
			l.SetDomain("added")
		}, func(r *rand.Rand) string {
			switch r.Intn(8) {
			case 0:
				l.GetTranslations()
				return "GetTranslations"
			case 1:
				l.MarshalBinary()
				return "MarshalBinary"
			case 2, 3:
				p := callOf(r, nil)
				p.Fn, p.Dom = queryFns[r.Intn(len(queryFns))], "added"
				locQuery(l, p)
				return p.Fn
			}
			p := callOf(r, nil)
			p.Dom = "added"
			locLookup(l, p)
			return p.Fn
		})
		cleanScratch(t)
	})
	c.Cases("package", c.N(500, 12000), 1, func(t *T) {
		ops := packageOps(t)
		n := &nest{t: t, r: t.R, ops: ops, writers: pickOps(ops, "reloads"), look: func(r *rand.Rand, arg ...interface{}) (string, string) {
			p := callOf(r, arg)
			return p.Fn, pkgLookup(p)
		}}
		n.run(t.R.Intn(3), 1+t.R.Intn(3)/2)
		t.Count("package_calls", 1)
		cleanScratch(t)
	})
	c.Cases("package-translator", c.N(300, 8000), 1, func(t *T) {
		ops := packageOps(t)
		n := &nest{t: t, r: t.R, ops: ops, writers: pickOps(ops, "reloads")}
		n.look = func(r *rand.Rand, arg ...interface{}) (string, string) {
			p := callOf(r, arg)
			return p.Fn, pkgLookup(p)
		}
		n.runBack(t.R.Intn(2), func(bt *backTranslator) {
			l := gotext.NewLocale(t.Scratch, "xx")
			l.AddTranslator("d", bt)
			gotext.SetLocales([]*gotext.Locale{l, l})
		}, func(r *rand.Rand) string {
			p := callOf(r, nil)
			p.Dom = "d"
			if r.Intn(3) == 0 {
				p.Fn = queryFns[r.Intn(len(queryFns))]
				pkgQuery(p)
			} else {
				pkgLookup(p)
			}
			return p.Fn
		})
		t.Count("package_calls", 1)
		cleanScratch(t)
	})
}
