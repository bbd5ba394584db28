package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// PNode is a plural expression with the meaning it has in C (unsigned arithmetic on n).
type PNode struct {
	Op      string // "n", "const", "%", "==" .. ">=", "&&", "||", "?:"
	Val     uint64
	A, B, C *PNode
}

// Eval evaluates as C does.
func (p *PNode) Eval(n uint64) uint64 {
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch p.Op {
	case "n":
		return n
	case "const":
		return p.Val
	case "%":
		return p.A.Eval(n) % p.B.Eval(n)
	case "==":
		return b(p.A.Eval(n) == p.B.Eval(n))
	case "!=":
		return b(p.A.Eval(n) != p.B.Eval(n))
	case "<":
		return b(p.A.Eval(n) < p.B.Eval(n))
	case "<=":
		return b(p.A.Eval(n) <= p.B.Eval(n))
	case ">":
		return b(p.A.Eval(n) > p.B.Eval(n))
	case ">=":
		return b(p.A.Eval(n) >= p.B.Eval(n))
	case "&&":
		return b(p.A.Eval(n) != 0 && p.B.Eval(n) != 0)
	case "||":
		return b(p.A.Eval(n) != 0 || p.B.Eval(n) != 0)
	case "?:":
		if p.A.Eval(n) != 0 {
			return p.B.Eval(n)
		}
		return p.C.Eval(n)
	}
	panic("op " + p.Op)
}

func pconst(v uint64) *PNode { return &PNode{Op: "const", Val: v} }
func pvar() *PNode           { return &PNode{Op: "n"} }

// ------------------------------------------------------------- generator

var plConsts = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 19, 20, 21, 99, 100, 101, 1000, 1000000, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295}

func genConst(r *rand.Rand) uint64 {
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return uint64(r.Intn(12))
	case 5:
		return uint64(r.Intn(120))
	case 6:
		return uint64(r.Uint32())
	default:
		return plConsts[r.Intn(len(plConsts))]
	}
}

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}

// genCmp makes a comparison of n or n modulo a constant with a constant, either way round.
func genCmp(r *rand.Rand) *PNode {
	l := pvar()
	k := genConst(r)
	if r.Intn(2) == 0 {
		m := []uint64{2, 3, 5, 10, 10, 10, 100, 100, 1000, 7, 1, 1000000, 4294967295}[r.Intn(13)]
		if r.Intn(6) == 0 {
			m = genConst(r)
			if m == 0 {
				m = 1
			}
		}
		l = &PNode{Op: "%", A: l, B: pconst(m)}
		if r.Intn(4) > 0 {
			k = uint64(r.Int63n(int64(m) + 2))
			if k > 4294967295 {
				k = 0
			}
		}
	}
	op := cmpOps[r.Intn(len(cmpOps))]
	if r.Intn(4) == 0 {
		return &PNode{Op: op, A: pconst(k), B: l}
	}
	return &PNode{Op: op, A: l, B: pconst(k)}
}

func genCond(r *rand.Rand, depth int) *PNode {
	if depth <= 0 || r.Intn(3) == 0 {
		return genCmp(r)
	}
	op := "&&"
	if r.Intn(2) == 0 {
		op = "||"
	}
	return &PNode{Op: op, A: genCond(r, depth-1), B: genCond(r, depth-1)}
}

// genTernary makes a rule with forms below max.
func genTernary(r *rand.Rand, depth, max int) *PNode {
	if depth <= 0 || r.Intn(4) == 0 {
		return pconst(uint64(r.Intn(max)))
	}
	b := pconst(uint64(r.Intn(max)))
	if r.Intn(5) == 0 {
		b = genTernary(r, depth-1, max)
	}
	return &PNode{Op: "?:", A: genCond(r, r.Intn(3)), B: b, C: genTernary(r, depth-1, max)}
}

// genRule makes a rule and the number of its forms.
func genRule(r *rand.Rand, maxForms int) (*PNode, int) {
	switch r.Intn(10) {
	case 0:
		return genCond(r, r.Intn(3)), 2
	case 1:
		return pconst(0), 1
	case 2, 3, 4:
		e := realRules[r.Intn(len(realRules))]
		return e.node, e.n
	}
	n := 2 + r.Intn(maxForms-1)
	p := genTernary(r, 1+r.Intn(4), n)
	if p.Op == "const" {
		p = &PNode{Op: "?:", A: genCond(r, 1), B: p, C: pconst(uint64(r.Intn(n)))}
	}
	return p, n
}

var plPrec = map[string]int{"?:": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 5, "<=": 5, ">": 5, ">=": 5, "%": 6, "n": 9, "const": 9}

// Print writes the expression in one of its many spellings. Parentheses go around conditions and branches.
func (p *PNode) Print(r *rand.Rand) string { return p.print(r, 0, true) }

func (p *PNode) print(r *rand.Rand, min int, top bool) string {
	sp := func() string {
		if r == nil {
			return ""
		}
		return []string{"", "", " ", " ", "  "}[r.Intn(5)]
	}
	var s string
	switch p.Op {
	case "n":
		s = "n"
	case "const":
		s = strconv.FormatUint(p.Val, 10)
	case "?:":
		// a ternary in the true branch is legal in C without parentheses, but we do not write it so
		s = p.A.print(r, 2, false) + sp() + "?" + sp() + p.B.print(r, 2, false) + sp() + ":" + sp() + p.C.print(r, 1, false)
	case "&&", "||":
		pr := plPrec[p.Op]
		s = p.A.print(r, pr, false) + sp() + p.Op + sp() + p.B.print(r, pr, false)
	default:
		s = p.A.print(r, plPrec[p.Op]+1, false) + sp() + p.Op + sp() + p.B.print(r, plPrec[p.Op]+1, false)
	}
	operand := p.Op == "n" || p.Op == "%" || p.Op == "const" && min >= 4
	if plPrec[p.Op] < min {
		s = "(" + sp() + s + sp() + ")"
	}
	if r != nil && !operand {
		for r.Intn(6) == 0 {
			s = "(" + sp() + s + sp() + ")"
		}
	}
	if top {
		s = sp() + s + sp()
	}
	return s
}

// ------------------------------------------------------------- independent parser

// ParseC parses the language of gettext plural rules, including what this library does not take:
// negation, arithmetic, comparison of anything with anything. The result is nil if s is not a valid expression.
func ParseC(s string) *PNode {
	p := &cparser{s: s}
	e := p.ternary()
	p.ws()
	if p.bad || p.i != len(p.s) {
		return nil
	}
	return e
}

type cparser struct {
	s     string
	i     int
	bad   bool
	depth int
}

func (p *cparser) ws() {
	for p.i < len(p.s) && p.s[p.i] == ' ' {
		p.i++
	}
}

func (p *cparser) tok(ts ...string) string {
	p.ws()
	for _, t := range ts {
		if strings.HasPrefix(p.s[p.i:], t) {
			p.i += len(t)
			return t
		}
	}
	return ""
}

func (p *cparser) ternary() *PNode {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 2000 {
		p.bad = true
	}
	if p.bad {
		return pconst(0)
	}
	c := p.binary(0)
	if p.tok("?") == "" {
		return c
	}
	a := p.ternary()
	if p.tok(":") == "" {
		p.bad = true
		return c
	}
	b := p.ternary()
	return &PNode{Op: "?:", A: c, B: a, C: b}
}

var binLevels = [][]string{{"||"}, {"&&"}, {"==", "!="}, {"<=", ">=", "<", ">"}, {"%"}}

func (p *cparser) binary(l int) *PNode {
	if l == len(binLevels) {
		return p.prim()
	}
	a := p.binary(l + 1)
	for !p.bad {
		op := p.tok(binLevels[l]...)
		if op == "" {
			return a
		}
		a = &PNode{Op: op, A: a, B: p.binary(l + 1)}
	}
	return a
}

func (p *cparser) prim() *PNode {
	p.ws()
	if p.i >= len(p.s) {
		p.bad = true
		return pconst(0)
	}
	switch c := p.s[p.i]; {
	case c == 'n':
		p.i++
		return pvar()
	case c >= '0' && c <= '9':
		j := p.i
		for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
			j++
		}
		v, err := strconv.ParseUint(p.s[p.i:j], 10, 64)
		if err != nil {
			p.bad = true
		}
		p.i = j
		return pconst(v)
	case c == '(':
		p.i++
		e := p.ternary()
		if p.tok(")") == "" {
			p.bad = true
		}
		return e
	}
	p.bad = true
	return pconst(0)
}

// zeroMod tells whether a constant zero divides.
func (p *PNode) zeroMod() bool {
	if p == nil {
		return false
	}
	if p.Op == "%" && p.B.Op == "const" && p.B.Val == 0 {
		return true
	}
	return p.A.zeroMod() || p.B.zeroMod() || p.C.zeroMod()
}

// bareValue tells whether n, a modulus or a constant is used as a truth value or as a form,
// which the library does not read as C does (or refuses).
func (p *PNode) bareValue() bool {
	isBool := func(q *PNode) bool {
		switch q.Op {
		case "n", "%", "const", "?:":
			return false
		}
		return true
	}
	switch p.Op {
	case "n", "%":
		return true
	case "const":
		return false
	case "?:":
		return !isBool(p.A) || p.A.bareValue() || p.B.bareValue() || p.C.bareValue()
	case "&&", "||":
		return !isBool(p.A) || !isBool(p.B) || p.A.bareValue() || p.B.bareValue()
	}
	return false
}

// samplePoints are counts around everything the rule distinguishes.
func (p *PNode) samplePoints(r *rand.Rand, extra int) []uint32 {
	set := map[uint32]bool{}
	add := func(v uint64) {
		for d := -2; d <= 2; d++ {
			set[uint32(v+uint64(d))] = true
		}
	}
	var walk func(q *PNode)
	walk = func(q *PNode) {
		if q == nil {
			return
		}
		if q.Op == "const" {
			add(q.Val)
			add(q.Val * 10)
			add(4294967295 / (q.Val + 1) * (q.Val + 1))
		}
		walk(q.A)
		walk(q.B)
		walk(q.C)
	}
	walk(p)
	add(0)
	add(1 << 31)
	add(1<<32 - 1)
	for i := 0; i < extra; i++ {
		set[r.Uint32()] = true
		set[uint32(r.Intn(2000))] = true
	}
	out := make([]uint32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sortU32(out)
	return out
}

type realRule struct {
	text string
	n    int
	node *PNode
}

var realRules = func() []realRule {
	var out []realRule
	for _, l := range strings.Split(strings.TrimSpace(`
1;0
2;n != 1
2;n>1
2;n%10!=1 || n%100==11
3;n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2
3;n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2
3;n==1 ? 0 : n==2 ? 1 : 2
3;(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2
3;n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2
3;n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2
4;n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3
4;(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3
5;n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4
6;n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5
4;n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3
3;n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2
2;n==1 || n%10==1 ? 0 : 1
3;n==0 ? 0 : n==1 ? 1 : 2
4;n==1 ? 0 : n==2 ? 1 : n<=10 ? 2 : 3
5;(n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91) ? 0 : ((n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92) ? 1 : ((((n % 10 == 3 || n % 10 == 4) || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99)) ? 2 : ((n != 0 && n % 1000000 == 0) ? 3 : 4)))
2;n != 0 && n != 1 ? 1 : 0
6;(n==0) ? 0 : ((n==1) ? 1 : ((n==2) ? 2 : ((n==3) ? 3 : ((n==6) ? 4 : 5))))
`), "\n") {
		k := strings.Index(l, ";")
		n, _ := strconv.Atoi(l[:k])
		node := ParseC(l[k+1:])
		if node == nil {
			panic("bad rule " + l)
		}
		out = append(out, realRule{l[k+1:], n, node})
	}
	return out
}()

func pluralHeader(n int, rule string) string {
	return fmt.Sprintf("nplurals=%d; plural=%s;", n, rule)
}
