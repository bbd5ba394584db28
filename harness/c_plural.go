package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
)

func init() {
	register(&Check{ID: "C06", Rule: "rules printed from random expression trees in random spellings (evaluated against the tree), token and character mutations of them (judged by an independent parser), random strings; counts around every constant, its multiples and the ends of the range, plus random ones; distinct by rule text",
		Need: []string{"accepted", "refused", "evaluations", "mutants_accepted", "max_depth", "large"},
		Run:  runC06})
	register(&Check{ID: "C07", Rule: "catalogues with random rules or none, from PO, MO, edits and locales, every form with its own text; counts around every boundary of the rule; custom resolvers and the Germanic rule without one",
		Need: []string{"counts", "forms_hit", "custom", "germanic", "set_then_get", "reloads"},
		Run:  runC07})
}

func (p *PNode) depth() int {
	if p == nil {
		return 0
	}
	d := p.A.depth()
	if x := p.B.depth(); x > d {
		d = x
	}
	if x := p.C.depth(); x > d {
		d = x
	}
	return d + 1
}

func plTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch {
		case i+1 < len(s) && strings.Contains(" == != <= >= && || ", " "+s[i:i+2]+" "):
			out = append(out, s[i:i+2])
			i += 2
		case s[i] >= '0' && s[i] <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, s[i:i+1])
			i++
		}
	}
	return out
}

var plTok = []string{"n", "n", "0", "1", "2", "10", "%", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", ":", "(", ")", " ", "x", "@", ".", ",", ";", "é", "#", "nn", "3000000000", "4294967296", "99999999999999999999", "==0", "?0:1"}

func mutateRule(r *rand.Rand, s string) string {
	ts := plTokens(s)
	for k := 0; k <= r.Intn(3); k++ {
		if len(ts) == 0 {
			break
		}
		p := r.Intn(len(ts))
		switch r.Intn(6) {
		case 0:
			ts = append(ts[:p:p], ts[p+1:]...)
		case 1:
			ts = append(ts[:p:p], append([]string{plTok[r.Intn(len(plTok))]}, ts[p:]...)...)
		case 2:
			ts[p] = plTok[r.Intn(len(plTok))]
		case 3:
			q := r.Intn(len(ts))
			ts[p], ts[q] = ts[q], ts[p]
		case 4:
			ts = ts[:p]
		case 5:
			// every modulus becomes zero
			for i := range ts {
				if ts[i] == "%" && i+1 < len(ts) && r.Intn(2) == 0 {
					ts[i+1] = "0"
				}
			}
		}
	}
	s = strings.Join(ts, "")
	if r.Intn(5) == 0 && len(s) > 0 {
		p := r.Intn(len(s))
		if r.Intn(2) == 0 {
			s = s[:p] + s[p+1:]
		} else {
			s = s[:p] + string("=!&|<>?:()n019% +-*x"[r.Intn(20)]) + s[p:]
		}
	}
	return s
}

func runC06(c *C) {
	c.Cases("accepted", c.N(45000, 400000), par(), func(t *T) {
		r := t.R
		var p *PNode
		switch r.Intn(4) {
		case 0:
			p = genCond(r, r.Intn(4))
		case 1:
			p, _ = genRule(r, 8)
		default:
			p = genTernary(r, 1+r.Intn(6), 1+r.Intn(40))
		}
		s := p.Print(r)
		if len(s) > 1000 {
			return
		}
		t.Logf("rule %q", s)
		if q := ParseC(s); q == nil {
			panic("harness: printed an invalid rule: " + s)
		}
		e, err := plurals.Compile(s)
		if err != nil {
			t.Failf("refused", "the valid rule %q is refused: %v", s, err)
			return
		}
		t.Count("accepted", 1)
		t.Max("max_depth", int64(p.depth()))
		evalRule(t, s, p, e)
		t.Eval()
		t.Distinct(strings.ReplaceAll(s, " ", ""))
		t.Sample(s)
	})
	// as large as rules may be
	c.Cases("large", c.N(3000, 40000), par(), func(t *T) {
		r := t.R
		limit := 300 + r.Intn(701)
		wrap := func(s string) string { return "(" + s + ")" }
		p := genCmp(r)
		if r.Intn(4) == 0 {
			p = genCond(r, 2)
		}
		s := p.Print(r)
		shape := r.Intn(6)
		outer := func() { // a choice around the condition
			a, b := pconst(uint64(r.Intn(50))), pconst(uint64(r.Intn(50)))
			p = &PNode{Op: "?:", A: p, B: a, C: b}
			s += "?" + a.Print(r) + ":" + b.Print(r)
		}
		for {
			q, u := p, s
			switch shape {
			case 0: // parentheses in parentheses
				u = wrap(s)
			case 1: // a long chain of choices
				c, a := genCmp(r), pconst(uint64(r.Intn(50)))
				if q.Op != "?:" {
					b := pconst(uint64(r.Intn(50)))
					q, u = &PNode{Op: "?:", A: p, B: a, C: b}, s+"?"+a.Print(r)+":"+b.Print(r)
				}
				x := u
				if r.Intn(3) == 0 {
					x = wrap(x)
				}
				q, u = &PNode{Op: "?:", A: c, B: a, C: q}, c.Print(r)+"?"+a.Print(r)+":"+x
			case 2: // a long list of conditions
				c := genCmp(r)
				q, u = &PNode{Op: "||", A: p, B: c}, s+" || "+c.Print(r)
				if limit%2 == 0 {
					q, u = &PNode{Op: "&&", A: p, B: c}, s+"&&"+c.Print(r)
				}
				if p.Op == "&&" && limit%2 == 1 || p.Op == "||" && limit%2 == 0 {
					u = wrap(s) + u[len(s):]
				}
			case 3: // conditions in conditions
				c := genCmp(r)
				op := []string{"&&", "||"}[r.Intn(2)]
				if r.Intn(2) == 0 {
					q, u = &PNode{Op: op, A: c, B: p}, c.Print(r)+op+wrap(s)
				} else {
					q, u = &PNode{Op: op, A: p, B: c}, wrap(s)+op+c.Print(r)
				}
			case 4: // choices in branches
				c, a := genCmp(r), pconst(uint64(r.Intn(50)))
				if q.Op != "?:" {
					b := pconst(uint64(r.Intn(50)))
					q, u = &PNode{Op: "?:", A: p, B: a, C: b}, s+"?"+a.Print(r)+":"+b.Print(r)
				}
				q, u = &PNode{Op: "?:", A: c, B: q, C: a}, c.Print(r)+"?"+wrap(u)+":"+a.Print(r)
			case 5: // blanks
				if i := strings.IndexByte(u, ' '); i >= 0 {
					u = u[:i] + strings.Repeat(" ", 1+r.Intn(40)) + u[i:]
				} else {
					u += " "
				}
			}
			if len(u) > limit-10 {
				break
			}
			p, s = q, u
		}
		if p.Op != "?:" && r.Intn(3) > 0 {
			if shape == 0 || r.Intn(2) == 0 {
				s = wrap(s)
			}
			outer()
		}
		if len(s) > 1000 {
			return
		}
		t.Logf("rule %q", s)
		if q := ParseC(s); q == nil {
			panic("harness: printed an invalid rule: " + s)
		}
		e, err := plurals.Compile(s)
		if err != nil {
			t.Failf("refused", "the valid rule %q is refused: %v", s, err)
			return
		}
		t.Count("large", 1)
		t.Max("max_depth", int64(p.depth()))
		t.Max("max_parentheses", int64(strings.Count(s, "(")))
		evalRule(t, s, p, e)
		t.Eval()
		t.Distinct(strings.ReplaceAll(s, " ", ""))
	})
	c.Cases("mutants", c.N(80000, 1000000), par(), func(t *T) {
		r := t.R
		p, _ := genRule(r, 6)
		s := mutateRule(r, p.Print(r))
		if r.Intn(10) == 0 { // loose token soup
			var b strings.Builder
			for i := 0; i < 1+r.Intn(9); i++ {
				b.WriteString(plTok[r.Intn(len(plTok))])
			}
			s = b.String()
		}
		if len(s) > 1000 {
			return
		}
		judgeRule(t, s)
	})
	c.Cases("hostile", c.N(6000, 50000), par(), func(t *T) {
		r := t.R
		var s string
		switch r.Intn(4) {
		case 0:
			b := make([]byte, r.Intn(300))
			r.Read(b)
			s = string(b)
		case 1:
			s = strings.Repeat([]string{"(", ")", "n?", "?", ":", "n==1||", "n==1&&(", "n==1?0:", "0?", "()", "%", "n%2==1?(", " "}[r.Intn(13)], 1+r.Intn(4000))
		case 2:
			k := 1 + r.Intn(200)
			s = strings.Repeat("(", k) + "n==1" + strings.Repeat(")", k+r.Intn(3)-1)
		case 3:
			k := 1 + r.Intn(90)
			s = strings.Repeat("n==1?0:", k) + []string{"1", "", "n", ":"}[r.Intn(4)]
		}
		t.Logf("rule %q", cut(s, 400))
		if len(s) <= 1000 {
			judgeRule(t, s)
			return
		}
		if e, err := plurals.Compile(s); err == nil {
			for _, n := range []uint32{0, 1, 2, 1 << 31, 1<<32 - 1} {
				if e.Eval(n) < 0 {
					t.Failf("negative", "rule %q gives a negative form for %d", cut(s, 200), n)
				}
			}
		}
		t.Eval()
		t.Count("hostile", 1)
	})
	c.Cases("real", len(realRules), par(), func(t *T) {
		rr := realRules[t.Index]
		e, err := plurals.Compile(rr.text)
		if err != nil {
			t.Failf("refused", "the rule %q in real use is refused: %v", rr.text, err)
			return
		}
		k := uint32(c.N(1<<17, 1<<24))
		for d := uint32(0); d < k; d++ {
			for _, n := range []uint32{d, -d, 1<<31 - k/2 + d} {
				if g, w := e.Eval(n), int(rr.node.Eval(uint64(n))); g != w {
					t.Failf("meaning", "rule %q at n=%d: form %d, in C %d", rr.text, n, g, w)
					return
				}
			}
		}
		t.Count("evaluations", 3*int64(k))
		t.Eval()
		t.Distinct(rr.text)
	})
	// bare values as conditions, which the repository's own tests pin to another meaning than C's
	c.Cases("bare", 2, 1, func(t *T) {
		s := []string{"n % 10", "n"}[t.Index]
		key := []string{"bare-modulus", "bare-n"}[t.Index]
		p := ParseC(s)
		e, err := plurals.Compile(s)
		if err != nil {
			t.Failf(key+"-refused", "rule %q is refused: %v", s, err)
			return
		}
		pinned, inC := true, true
		for n := uint32(0); n < 200; n++ {
			g := e.Eval(n)
			quirk := 0
			if t.Index == 0 && n%10 == 0 || t.Index == 1 && n != 0 {
				quirk = 1
			}
			pinned = pinned && g == quirk
			inC = inC && g == int(p.Eval(uint64(n)))
		}
		t.Eval()
		if inC {
			return
		}
		if pinned {
			t.Failf(key, "%s", []string{"the rule \"n % 10\" gives 1 for multiples of 10 and 0 for others, not n % 10", "the rule \"n\" gives 1 for every count but 0, not n"}[t.Index])
			return
		}
		t.Failf(key+"-other", "rule %q has neither its meaning in C nor the one the tests pin", s)
	})
}

func evalRule(t *T, s string, p *PNode, e plurals.Expression) bool {
	for _, n := range p.samplePoints(t.R, 12) {
		t.Count("evaluations", 1)
		if g, w := e.Eval(n), int(p.Eval(uint64(n))); g != w {
			t.Failf("meaning", "rule %q at n=%d: form %d, in C %d", s, n, g, w)
			return false
		}
	}
	return true
}

// judgeRule gives any string to the compiler.
func judgeRule(t *T, s string) {
	p := ParseC(s)
	valid := p != nil && !p.zeroMod()
	e, err := plurals.Compile(s)
	t.Logf("rule %q: %v", s, err)
	t.Eval()
	if err != nil {
		t.Count("refused", 1)
		if !valid {
			t.Distinct(strings.ReplaceAll(s, " ", ""))
		}
		return
	}
	if !valid {
		t.Failf("accepted-invalid", "the invalid rule %q is accepted", s)
		return
	}
	t.Count("mutants_accepted", 1)
	t.Distinct(strings.ReplaceAll(s, " ", ""))
	for _, n := range p.samplePoints(t.R, 4) {
		g := e.Eval(n)
		if g < 0 {
			t.Failf("negative", "rule %q gives form %d for n=%d", s, g, n)
			return
		}
		if !p.bareValue() {
			if w := int(p.Eval(uint64(n))); g != w {
				t.Failf("meaning", "rule %q at n=%d: form %d, in C %d", s, n, g, w)
				return
			}
		}
	}
}

// ---------------------------------------------------------------- C07

// fullForms makes every entry a plural one with a text of its own for every form.
func fullForms(m *Model, nforms int, name string) {
	i := 0
	for _, e := range m.sorted() {
		if e.Plural == "" && i%3 != 0 {
			e.Plural = e.ID + "s"
		}
		if e.Plural != "" {
			for f := 0; f < nforms; f++ {
				e.Forms[f] = fmt.Sprintf("%s %d form %d", name, i, f)
			}
		}
		i++
	}
}

func runC07(c *C) {
	resolvers := []func(int) int{
		func(n int) int { return 0 },
		func(n int) int { return n % 3 },
		func(n int) int {
			if n > 1 {
				return 1
			}
			return 0
		},
		func(n int) int { return 2 - n%3 },
	}
	c.Cases("forms", c.N(15000, 60000), par(), func(t *T) {
		r := t.R
		m := genCatalogue(r, GenOpt{Max: 6, NoHeader: true, NoRule: true, MaxForms: 6, Hostile: true})
		nf := m.NForms
		if m.Rule == nil {
			nf = 3
		}
		fullForms(m, nf, "entry")
		po, mo := gotext.NewPo(), gotext.NewMo()
		var o catalog
		var ed editable
		var d *gotext.Domain
		isPo := r.Intn(2) == 0
		load := func(m *Model) {
			if isPo {
				b := m.RenderPO(r)
				t.Logf("po: %s", quote(b))
				po.Parse(b)
			} else {
				b := m.RenderMO(r, nil)
				t.Logf("mo: %s", quote(b))
				mo.Parse(b)
			}
		}
		load(m)
		if isPo {
			o, ed, d = po, po, po.GetDomain()
		} else {
			o, ed, d = mo, mo.GetDomain(), mo.GetDomain()
		}
		if r.Intn(2) == 0 {
			k := r.Intn(len(resolvers))
			m.Custom = resolvers[k]
			ed.SetPluralResolver(resolvers[k])
			t.Logf("resolver %d", k)
			if m.Rule == nil {
				t.Count("custom", 1)
			}
		} else if m.Rule == nil {
			t.Count("germanic", 1)
		}
		// a further file may bring another rule, for counts that have been asked for before
		if r.Intn(3) == 0 {
			var ps []Probe
			for _, e := range m.sorted() {
				pl := e.Plural
				if pl == "" {
					pl = "plural"
				}
				for _, n := range []int{0, 1, 2, 3, 5, 11, 21, 100, r.Intn(200)} {
					ps = append(ps, Probe{e.Ctx, e.ID, pl, n})
				}
			}
			if !t.compare("form-before-reload", m, o, ps) {
				return
			}
			m2 := genCatalogue(r, GenOpt{Max: 4, NoHeader: true, NoRule: true, MaxForms: 6, Hostile: true, KeyPool: m.keys()})
			nf := m2.NForms
			if m2.Rule == nil {
				nf = 3
			}
			fullForms(m2, nf, "reloaded entry")
			if r.Intn(4) == 0 {
				// restored into the object, whose resolver stays
				other := gotext.NewPo()
				b := m2.RenderPO(r)
				other.Parse(b)
				data, err := other.MarshalBinary()
				if err == nil {
					err = []interface{ UnmarshalBinary([]byte) error }{d, o.(interface{ UnmarshalBinary([]byte) error })}[r.Intn(2)].UnmarshalBinary(data)
				}
				if err != nil {
					t.Failf("restore", "%v", err)
					return
				}
				t.Logf("restored: %s", quote(b))
				m2.Custom = m.Custom
				m = m2
				t.Count("restored", 1)
			} else {
				load(m2)
				m.load(m2)
			}
			t.Count("reloads", 1)
			if !t.compare("form-after-reload", m, o, ps) {
				return
			}
		}
		var counts []int
		if m.Rule != nil {
			for _, n := range m.Rule.samplePoints(r, 8) {
				counts = append(counts, int(n))
			}
		} else {
			counts = []int{0, 1, 2, 3, 4, 5, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1}
			for i := 0; i < 10; i++ {
				counts = append(counts, int(r.Uint32()))
			}
		}
		seen := map[int]bool{}
		var ps []Probe
		es := m.sorted()
		for _, n := range counts {
			seen[m.form(n)] = true
			e := es[r.Intn(len(es))]
			pl := e.Plural
			if pl == "" {
				pl = "plural"
			}
			ps = append(ps, Probe{e.Ctx, e.ID, pl, n})
		}
		t.Count("counts", int64(len(counts)))
		t.Count("forms_hit", int64(len(seen)))
		if !t.compare("form", m, o, ps) {
			return
		}
		if r.Intn(4) == 0 {
			// another resolver, or none
			m.Custom = nil
			k := r.Intn(len(resolvers) + 1)
			if k < len(resolvers) {
				m.Custom = resolvers[k]
			}
			ed.SetPluralResolver(m.Custom)
			t.Logf("resolver %d", k)
			t.Count("other_resolver", 1)
			if !t.compare("form-other-resolver", m, o, ps) {
				return
			}
		}
		l := gotext.NewLocale("", "xx")
		if m.Rule != nil || r.Intn(2) == 0 {
			var tr gotext.Translator = po
			if o == catalog(mo) {
				tr = mo
			}
			l.AddTranslator("d", tr)
			if !t.compare("form-locale", m, localeCat{l, "d"}, ps[:len(ps)/2]) {
				return
			}
		}
		// what is set for a count is what the count gives
		for i := 0; i < 8; i++ {
			n := counts[r.Intn(len(counts))]
			if r.Intn(3) == 0 {
				n = r.Intn(3)
			}
			k := es[r.Intn(len(es))]
			key := Key{k.Ctx, k.ID}
			if r.Intn(3) == 0 {
				key.ID = fmt.Sprintf("new %d", i)
			}
			if r.Intn(4) == 0 {
				key.Ctx = fmt.Sprintf("new context %d", i)
				t.Count("set_in_new_context", 1)
			}
			e := randomSet(r, m, key, fmt.Sprintf("set %d", i))
			e.N = n
			if !strings.Contains(e.Op, "N") {
				e.Op = map[string]string{"Set": "SetN", "SetC": "SetNC"}[e.Op]
			}
			applyEdit(t, m, ed, e)
			var got string
			if key.Ctx == "" {
				got = o.GetN(key.ID, e.Plural, n)
			} else {
				got = o.GetNC(key.ID, e.Plural, n, key.Ctx)
			}
			t.Count("set_then_get", 1)
			if got != e.Val {
				t.Failf("set-get", "after %v a lookup with n=%d gives %q", e, n, got)
				return
			}
			for j := 0; j < 4; j++ {
				ps = append(ps, Probe{key.Ctx, key.ID, e.Plural, counts[r.Intn(len(counts))]})
			}
		}
		t.compare("form-after-set", m, d, ps)
		t.Distinct(string(m.RenderPO(nil)))
		t.Sample(caseKind(m) + fmt.Sprintf(", %d counts, %d forms", len(counts), len(seen)))
	})
}
