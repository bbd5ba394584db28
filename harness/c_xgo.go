package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/leonelquinteros/gotext"
)

func init() {
	register(&Check{ID: "C31", Rule: "Go module trees with library calls of every lookup function on the package (any import alias) and on values of every library type (variables, fields, elements, results, conversions, assertions, type arguments, other packages' values), in every kind of statement and declaration, along with same-named functions, methods and packages of others, calls in comments and strings, calls with computed arguments; the xgotext binary runs on the tree in both modes and the templates it writes, read by an independent strict reader, are compared with the calls generated: domains, contexts, messages, plurals and references; distinct by receiver, function and position",
		Need: []string{"programs", "calls", "entries", "references", "repeated_messages", "negatives", "computed_arguments", "dir_runs", "pkg_tree_runs", "named_imports", "file_tops"},
		Run:  runC31})
	register(&Check{ID: "C32", Rule: "Go sources whose literals hold escapes, quotes, line ends, control and non-ASCII characters in every literal form; every template is read by an independent strict reader and by the library and has to hold exactly the messages of the sources; repeated runs, from other directories too, have to write the same bytes; a run whose template can not be written (full device, directory or file in its place) has to end with an error; distinct by literal",
		Need: []string{"programs", "literals", "raw_literals", "loaded_entries", "reruns", "shared_messages", "long_literals", "write_faults"},
		Run:  runC32})
	register(&Check{ID: "C33", Rule: "directory trees with exclusion lists (names that start alike, nested, repeated, missing, hidden, test data) and trees with files that don't compile (syntax errors, bad imports, cycles, other packages' files, binary files, links); the xgotext binary has to end with status 0 and without a panic, and the templates have to hold exactly the calls of the directories that are not excluded, and every call in the files that compile; command lines without input or output, with both inputs or a missing one have to end with an error; output that cannot be written, or only in part, has to end with one too; no run may change or add a file outside its output directory; distinct by tree, exclusion list and kind of damage",
		Need: []string{"programs", "excluded_directories", "kept_directories", "alike_names", "broken_files", "calls_beside_broken_files", "refused_command_lines", "files_watched", "unwritable", "reported"},
		Run:  runC33})
}

// ------------------------------------------------------------ generated programs

const libPath = "github.com/leonelquinteros/gotext"

type xcall struct {
	dom, ctx, id, plural string
	hasPl                bool
	file                 string
	l0, l1               int // lines it covers
	what                 string
	sure                 bool // has to be found
}

func (c *xcall) key() string { return fmt.Sprintf("%q %q %q", c.dom, c.ctx, c.id) }

type xfn struct {
	name              string
	dom, ctx, plural  bool
	idAt, argsAtLeast int
}

var xfns = []xfn{
	{name: "Get"}, {name: "GetN", plural: true}, {name: "GetD", dom: true}, {name: "GetND", dom: true, plural: true},
	{name: "GetC", ctx: true}, {name: "GetNC", ctx: true, plural: true}, {name: "GetDC", dom: true, ctx: true}, {name: "GetNDC", dom: true, ctx: true, plural: true},
}

type xprog struct {
	r        *rand.Rand
	files    map[string]string
	calls    []*xcall
	text     func(r *rand.Rand) string // a message
	domain   []string
	keys     []*xcall // given before
	plur     map[string]string
	pkgs     []*xpkg
	t        *T
	freely   bool // other plurals for one message
	anything bool // sources damaged at random
}

type xpkg struct {
	dir, name string
	root      bool
	exported  bool // has values of library types for others
}

// xgen writes one file.
type xgen struct {
	p     *xprog
	r     *rand.Rand
	A, F  string // the names of the library and of its double here
	n     int
	calls []*xcall
	file  string
	other []string // names of packages with library values
	depth int
	lit   bool // literals only
	sure  bool // the calls have to be found
}

func (g *xgen) uniq(s string) string { g.n++; return fmt.Sprintf("%s%d", s, g.n) }

// goLiteral writes s as a Go literal of any form.
func (p *xprog) goLiteral(s string) string {
	r := p.r
	rawOK := !strings.ContainsAny(s, "`\r\x00\ufeff")
	for _, c := range s {
		if c < 32 && c != '\n' && c != '\t' {
			rawOK = rawOK && r.Intn(2) == 0
		}
	}
	switch k := r.Intn(8); {
	case k < 3 && rawOK:
		p.t.Count("raw_literals", 1)
		return "`" + s + "`"
	case k == 3:
		return strconv.QuoteToASCII(s)
	case k == 4:
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range s {
			switch e := r.Intn(6); {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case e == 0 || c < 32 || c == 0x7f || c == 0xfeff:
				for _, x := range []byte(string(c)) {
					if r.Intn(2) == 0 {
						fmt.Fprintf(&b, `\x%02x`, x)
					} else {
						fmt.Fprintf(&b, `\%03o`, x)
					}
				}
			case e == 1 && c <= 0xffff:
				fmt.Fprintf(&b, `\u%04x`, c)
			case e == 2:
				fmt.Fprintf(&b, `\U%08x`, c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return strconv.Quote(s)
}

// nonLiteral is a computed string expression.
func (g *xgen) nonLiteral() string {
	g.p.t.Count("computed_arguments", 1)
	l := strconv.Quote(g.uniq("computed "))
	return []string{"vs", "cs", "fs()", "ss[0]", "fmt.Sprint(" + l + ")", "vs[1:]", l + "+vs", "vs+" + l, "st.f", "string(rune(65))", "strings.ToUpper(" + l + ")", "ms[" + l + "]", "func() string { return " + l + " }()", "*ps"}[g.r.Intn(14)]
}

func (g *xgen) number() string {
	if g.lit {
		return fmt.Sprint(g.r.Intn(5))
	}
	if g.depth < 2 && g.r.Intn(10) == 0 {
		return "len(" + g.call() + ")"
	}
	return []string{"0", "1", "2", "-1", "vi", "len(vs)", "int('x')", "0x7f", "3*4", "func() int { return 7 }()"}[g.r.Intn(10)]
}

// call writes a call that counts.
func (g *xgen) call() string {
	g.depth++
	defer func() { g.depth-- }()
	r, A := g.r, g.A
	tr := []string{"h.po", "h.mo", "h.d", "h.l", "h.tr", "h.list[0]", `h.m["k"]`, "h.f()", "(<-h.ch)", "h.arr[1]", "h.nested.P", "(*h.po)", "(&h.d)", "(h.po)", "((h.mo))", "getPo()", A + ".NewPo()", "new(" + A + ".Domain)", "(&" + A + ".Po{})", "h.any.(*" + A + ".Po)", A + ".Translator(h.po)", "gen(h.mo)", "gen[*" + A + ".Po](h.po)", "func() *" + A + ".Po { return nil }()", "aliased", "global", "[]*" + A + ".Po{nil}[0]", "map[string]*" + A + ".Mo{}[\"x\"]", "(*h.pp)", A + ".NewMoFS(nil)", "h.po.GetDomain()", "e.Po", "e.Locale", "box[*" + A + ".Po]{}.v", "box[" + A + ".Domain]{}.p", "self().k.mo", "aliasTr", "h.te.GetTranslator()", "h.deep[0][1]", "h.slf.slf.mo", "gen2[int, *" + A + ".Mo](1)",
		"h.at", A + ".AppendTranslator(h.po)", "h.any.(" + A + ".AppendTranslator)", "(*h.pt)", "h.ats[0].GetDomain()", "h.ats[1]"}
	lo := []string{"h.l", "h.ls[0]", A + `.NewLocale("p", "l")`, A + ".GetStorage()", A + ".GetLocales()[0]", "e.Locale", "locGlobal", "(*h.l)", "h.fl(\"x\", 1)", "(&h.lv)", "h.lv", "locAlias"}
	for _, o := range g.other {
		tr = append(tr, o+".Value", o+".New()", o+".S.Field", o+".M[1]")
		lo = append(lo, o+".Loc")
	}
	var recv, kind string
	fns := xfns
	switch k := r.Intn(10); {
	case k < 4:
		recv, kind = A, "package"
	case k < 6:
		recv = lo[r.Intn(len(lo))]
		kind = strings.ReplaceAll(recv, A+".", "")
	default:
		recv = tr[r.Intn(len(tr))]
		kind = strings.ReplaceAll(recv, A+".", "")
		fns = []xfn{xfns[0], xfns[1], xfns[4], xfns[5]}
	}
	fn := fns[r.Intn(len(fns))]
	return g.write(recv, kind, fn)
}

// xonlyCtx is a domain all of whose messages have contexts.
const xonlyCtx = "contexts"

// write writes a call of fn on the receiver.
func (g *xgen) write(recv, kind string, fn xfn) string {
	r, p := g.r, g.p
	c := &xcall{what: kind + " " + fn.name, sure: g.sure}
	if len(p.keys) > 0 && r.Intn(3) == 0 {
		k := p.keys[r.Intn(len(p.keys))]
		c.id, c.ctx, c.dom = k.id, k.ctx, k.dom
		p.t.Count("repeated_messages", 1)
	} else {
		c.id, c.dom = p.text(r), p.domain[r.Intn(len(p.domain))]
		if r.Intn(6) == 0 && len(p.keys) > 0 {
			c.id = p.keys[r.Intn(len(p.keys))].id // the same in another context or domain
		}
		if fn.ctx {
			c.ctx = p.text(r)
			if r.Intn(2) == 0 {
				c.ctx = []string{"ctx", "other ctx", "menu|x"}[r.Intn(3)]
			}
		}
	}
	if !fn.dom {
		c.dom = ""
	}
	if c.dom == xonlyCtx && !fn.ctx {
		c.dom = "dom"
	}
	if fn.ctx && c.ctx == "" {
		c.ctx = "c" + fmt.Sprint(r.Intn(3))
	}
	if !fn.ctx {
		c.ctx = ""
	}
	if fn.plural {
		c.hasPl = true
		c.plural = p.plur[c.key()]
		if c.plural == "" || (p.freely && r.Intn(5) == 0) {
			c.plural = p.text(r)
		}
		p.plur[c.key()] = c.plural
	}
	literal := true
	arg := func(s string) string {
		if !g.lit && r.Intn(25) == 0 {
			literal = false
			return g.nonLiteral()
		}
		return p.goLiteral(s)
	}
	var args []string
	if fn.dom {
		args = append(args, arg(c.dom))
	}
	idAt := len(args)
	args = append(args, arg(c.id))
	if fn.plural {
		args = append(args, arg(c.plural), g.number())
	}
	if fn.ctx {
		args = append(args, arg(c.ctx))
	}
	k := r.Intn(8)
	if g.lit {
		k = 9
	}
	switch k {
	case 0:
		args = append(args, "vs", `"literal argument"`, "vi")
	case 1:
		if g.depth < 2 {
			args = append(args, g.call())
		}
	case 2:
		args = append(args, "anys...")
	case 3:
		args = append(args, "nil", "struct{}{}")
	case 4:
		args = append(args, p.goLiteral(fmt.Sprintf("argument %d", r.Intn(100))))
	case 5:
		for i := 1 + r.Intn(6); i > 0; i-- {
			args = append(args, []string{`"a"`, "`b`", "1", "'c'", "2.5", "vi"}[r.Intn(6)])
		}
	}
	sep := func() string {
		switch r.Intn(30) {
		case 0:
			return "\n\t\t"
		case 1:
			return "/* " + g.A + ".Get(\"in a comment\") */"
		case 2:
			return "// it's " + g.A + ".Get(\"in a comment too\")\n\t\t"
		}
		return ""
	}
	var b strings.Builder
	id := len(g.calls)
	if literal {
		g.calls = append(g.calls, c)
		p.keys = append(p.keys, c)
		fmt.Fprintf(&b, "\ue000%d\ue001", id)
	}
	b.WriteString(recv + ".")
	if r.Intn(30) == 0 {
		b.WriteString("\n\t\t")
	}
	b.WriteString(fn.name + "(" + sep())
	for i, a := range args {
		if i > 0 {
			b.WriteString(", " + sep())
		}
		b.WriteString(a)
		if literal && i == idAt {
			// a call is where it begins, up to its message
			fmt.Fprintf(&b, "\ue002%d\ue003", id)
		}
	}
	if r.Intn(12) == 0 {
		b.WriteString(",\n\t")
	}
	b.WriteString(")")
	return b.String()
}

// negative writes a string expression with a call that doesn't count.
func (g *xgen) negative() string {
	g.p.t.Count("negatives", 1)
	q := strconv.Quote(g.uniq("not a message "))
	A, F := g.A, g.F
	return []string{
		"loc.Get(" + q + ")", "loc.GetN(" + q + ", " + q + ", 2)", "(&loc).GetD(\"dom\", " + q + ")", "loc.GetNDC(\"dom\", " + q + ", " + q + ", 1, \"ctx\")", "loc.in.GetC(" + q + ", \"c\")",
		"Get(" + q + ")", "fnField.Get(" + q + ")", "hd.Get(" + q + ")", F + ".Get(" + q + ")", F + ".GetN(" + q + ", " + q + ", 1)", F + ".Po{}.Get(" + q + ")", "(&" + F + ".Locale{}).GetD(\"d\", " + q + ")", F + ".NewPo().GetC(" + q + ", \"c\")",
		"Po{}.Get(" + q + ")", "Locale{}.GetD(\"d\", " + q + ")", "iface.Get(" + q + ")", "genLoc[int]{}.Get(" + q + ")",
		"fmt.Sprint(" + A + ".IsTranslated(" + q + "))", "fmt.Sprint(h.po.IsTranslatedC(" + q + ", \"c\"))", "fmt.Sprint(h.l.IsTranslatedD(\"dom\", " + q + "))", "fmt.Sprint(h.po.GetRefs(" + q + "))",
		"h.d.Headers.Get(" + q + ")", "h.po.GetDomain().Headers.Get(" + q + ")", A + ".HeaderMap{}.Get(" + q + ")", "fmt.Sprint(" + A + ".HeaderMap{}.Values(" + q + "))",
		A + ".FormatString(" + q + ")", A + ".Sprintf(" + q + ", nil)", A + ".SimplifiedLocale(" + q + ")", A + ".EscapeSpecialCharacters(" + q + ")", "h.l.GetActualLanguage(" + q + ")",
		strconv.Quote(A + ".Get(" + q + ")"), "`" + A + ".Get(" + q + ")`", "reflect.StructTag(" + q + ").Get(\"json\")",
		A + ".NewTranslation().Get()", "func() string { var " + A + " local; return " + A + ".Get(" + q + ") }()", "func(" + A + " *local) string { return " + A + ".GetN(" + q + ", " + q + ", 3) }(nil)",
		"func() string { h := loc; return h.GetC(" + q + ", \"c\") }()",
		"wrap{}.Get(" + q + ")", "(&wrap{h.l}).GetD(\"dom\", " + q + ")", "wrapEmb{h.po}.Get(" + q + ")", "wrapEmb{}.GetN(" + q + ", " + q + ", 2)", "myPo{}.Get(" + q + ")", "new(myPo).GetC(" + q + ", \"c\")",
		"myTr(h.po).Get(" + q + ")", "myMap{}.Get(" + q + ")", "myFn(nil).Get(" + q + ")", "myList{h.po}.GetN(" + q + ", " + q + ", 2)",
	}[g.r.Intn(47)]
}

func (g *xgen) expr() string {
	if g.r.Intn(5) == 0 {
		return g.negative()
	}
	if g.r.Intn(15) == 0 { // the package's name for a value of its type
		A := g.A
		g.depth += 5
		defer func() { g.depth -= 5 }()
		c := g.write(A, "local value named as the package", []xfn{xfns[0], xfns[1], xfns[4], xfns[5]}[g.r.Intn(4)])
		return "func() string { " + A + " := h.po; return " + c + " }()"
	}
	return g.call()
}

// statement writes a statement with calls.
func (g *xgen) statement(level int) (string, string) {
	r := g.r
	v := g.uniq("v")
	e := func() string { return g.expr() }
	pe := func() string { return "(" + g.expr() + ")" }
	body := func() string {
		if level > 2 {
			return "_ = " + e()
		}
		s, _ := g.statement(level + 1)
		return s
	}
	switch k := r.Intn(36); k {
	case 0:
		return "_ = " + e(), "blank"
	case 1:
		return "fmt.Println(" + e() + ", " + e() + ")", "argument"
	case 2:
		return "if " + pe() + " == \"\" {\n\t\t" + body() + "\n\t} else if " + v + " := " + pe() + "; " + v + " != " + pe() + " {\n\t\t" + body() + "\n\t} else {\n\t\t" + body() + "\n\t}", "if"
	case 3:
		return "switch " + pe() + " {\n\tcase " + pe() + ":\n\t\t" + body() + "\n\tdefault:\n\t\t" + body() + "\n\t}", "switch"
	case 4:
		return "for " + v + " := " + pe() + "; " + v + " == " + pe() + "; " + v + " += " + pe() + " {\n\t\t" + body() + "\n\t}", "for"
	case 5:
		return "for _, " + v + " := range " + pe() + " {\n\t\t_ = " + v + "\n\t\t" + body() + "\n\t}", "range"
	case 6:
		return "go func() {\n\t\t" + body() + "\n\t}()", "go"
	case 7:
		return "defer fmt.Println(" + e() + ")", "defer argument"
	case 8:
		return "defer " + g.call(), "defer"
	case 9:
		return "go " + g.call(), "go direct"
	case 10:
		return "_ = []string{" + e() + ", 3: " + e() + "}", "slice literal"
	case 11:
		return "_ = map[string]string{\n\t\t" + e() + ": " + e() + ",\n\t}", "map literal"
	case 12:
		return "_ = struct{ S, U string }{S: " + e() + ", U: " + e() + "}", "struct literal"
	case 13:
		return "select {\n\tcase chs <- " + e() + ":\n\t\t" + body() + "\n\tdefault:\n\t\t" + body() + "\n\t}", "select"
	case 14:
		return "chs <- " + e(), "send"
	case 15:
		return "var " + v + " = " + e() + "\n\t_ = " + v, "var"
	case 16:
		return v + ", ok" + v + " := " + e() + ", " + e() + "\n\t_, _ = " + v + ", ok" + v, "define"
	case 17:
		return "ms[" + e() + "] += " + e(), "index"
	case 18:
		return "_ = any(" + e() + ").(string) + string([]byte(" + e() + "))", "conversions"
	case 19:
		return g.call(), "statement"
	case 20:
		return v + ":\n\tfor {\n\t\t" + body() + "\n\t\tbreak " + v + "\n\t}", "label"
	case 21:
		return "switch " + v + " := any(" + e() + ").(type) {\n\tcase string:\n\t\t_ = " + v + "\n\t\t" + body() + "\n\tdefault:\n\t\t" + body() + "\n\t}", "type switch"
	case 22:
		return "func(f func() string, s ...string) { f() }(func() string {\n\t\treturn " + e() + "\n\t}, " + e() + ", " + e() + ")", "function literal"
	case 23:
		return "{\n\t\t" + body() + "\n\t\t{\n\t\t\t" + body() + "\n\t\t}\n\t}", "block"
	case 24:
		return "_ = ((" + e() + ") + (" + e() + "))", "parentheses"
	case 25:
		return "if false {\n\t\tpanic(vs)\n\t\t" + body() + "\n\t}", "unreachable"
	case 26:
		return "_ = " + e() + "[1:]", "slicing"
	case 27:
		return "_ = *gen(&[]string{" + e() + "}[0])", "pointer"
	case 28:
		return "type " + v + " struct{ s string }\n\t_ = " + v + "{" + e() + "}", "local type"
	case 29:
		return "_ = !(" + e() + " < " + e() + ") && " + e() + " != \"\"", "condition"
	case 30:
		return "fmt.Println(fmt.Sprintf(" + e() + ", fmt.Sprint(len(" + e() + "))))", "nested arguments"
	case 31:
		return "if " + v + " := func() string { return " + pe() + " }; " + v + "() != \"\" {\n\t\t" + body() + "\n\t}", "closure"
	case 32:
		return "for range " + fmt.Sprint(r.Intn(3)) + " {\n\t\tif vi > 0 {\n\t\t\tcontinue\n\t\t}\n\t\t" + body() + "\n\t}", "range over int"
	case 33:
		return "func() {\n\t\tdefer func() { recover(); " + body() + " }()\n\t\tpanic(" + e() + ")\n\t}()", "panic"
	case 34:
		return "const " + v + " = \"x\"\n\tgoto end" + v + "\nend" + v + ":\n\t_ = " + e() + " + " + v, "goto"
	}
	return "_ = [...]string{" + e() + "}[0]", "array"
}

var aliases = []string{"", "", "gotext", "gt", "i18n", "T", "_x", "l10n", "été", "fmt_", "L", "strings_"}

// xtops are what files start with; none of it makes a call less of a call.
var xtops = []string{
	"// Code generated by protoc-gen-go. DO NOT EDIT.\n// source: x.proto\n\n",
	"// Code generated by \"stringer -type=T\"; DO NOT EDIT.\n\n",
	"//go:build linux\n\n",
	"//go:build !windows && go1.23\n// +build !windows,go1.23\n\n",
	"// Copyright 2020 The Authors. All rights reserved.\n// SPDX-License-Identifier: MIT\n\n",
	"/*\nCopyright\n\ngotext.Get(\"in the licence\")\n*/\n\n",
	"//nolint:all\n//lint:file-ignore U1000 not used\n\n",
	"// xgotext:ignore no-extract i18n:ignore\n\n",
	"//go:generate go run ./gen\n\n",
	"\ufeff",
	"\n\n\n",
	"// DO NOT EDIT. autogenerated file, deprecated, draft\n\n",
}

func (p *xprog) top() string {
	if p.r.Intn(3) > 0 {
		return ""
	}
	p.t.Count("file_tops", 1)
	return xtops[p.r.Intn(len(xtops))]
}

// xfileName names a package's file.
func xfileName(r *rand.Rand, i int) string {
	n := []string{"f", "zz_generated", "a.pb", "doc", "x_gen", "mock_x", "bindata", "tests", "test", "main", "wire_gen", "x_linux", "F", "ünï", "x_test_", "a.go", "example", "x_string", "a_vendor", "locale", "messages.gotext"}
	if r.Intn(2) == 0 {
		return fmt.Sprintf("f%d.go", i)
	}
	x := n[r.Intn(len(n))]
	if strings.HasSuffix(x, "_linux") {
		return fmt.Sprintf("g%d%s.go", i, x)
	}
	return fmt.Sprintf("%s%d.go", x, i)
}

// file writes a file full of calls.
func (p *xprog) file(pkg *xpkg, name string, opt xopt) {
	r := p.r
	g := &xgen{p: p, r: r, sure: true}
	alias := aliases[r.Intn(len(aliases))]
	g.A = alias
	if alias == "" {
		g.A = "gotext"
	} else {
		p.t.Count("named_imports", 1)
	}
	fakePath, fakeName := "example.com/app/fake/gotext", "fake"
	if g.A != "gotext" && r.Intn(2) == 0 {
		fakeName = "" // its own name, which is the library's
	}
	if r.Intn(3) == 0 {
		fakePath = "example.com/app/github.com/leonelquinteros/gotext"
	}
	g.file = filepath.Join(pkg.dir, name)
	u := xpkgName(strings.TrimSuffix(name, ".go"))
	var b strings.Builder
	b.WriteString(p.top())
	fmt.Fprintf(&b, "// %s.Get(\"in the package comment\")\npackage %s\n\n", g.A, pkg.name)
	imp := func(a, path string) string {
		if a != "" {
			a += " "
		}
		if r.Intn(8) == 0 {
			return a + "`" + path + "`"
		}
		return a + strconv.Quote(path)
	}
	imports := []string{imp(alias, libPath), imp(fakeName, fakePath), `"fmt"`, `"strings"`, `"reflect"`}
	fake := fakeName
	if fake == "" {
		fake = "gotext"
	}
	g.F = fake
	extra := ""
	if r.Intn(5) == 0 {
		imports = append(imports, imp("_", libPath))
	}
	for i, o := range p.pkgs {
		if o.exported && o != pkg && !o.root && opt.others && r.Intn(2) == 0 {
			a := fmt.Sprintf("other%d", i)
			imports = append(imports, imp(a, "example.com/app/"+filepath.ToSlash(o.dir)))
			g.other = append(g.other, a)
			extra += "var _ = " + a + ".Value\n"
		}
	}
	r.Shuffle(len(imports), func(i, j int) { imports[i], imports[j] = imports[j], imports[i] })
	if r.Intn(3) == 0 {
		for _, i := range imports {
			b.WriteString("import " + i + "\n")
		}
	} else {
		b.WriteString("import (\n\t" + strings.Join(imports, "\n\t") + "\n)\n")
	}
	// functions
	body := strings.Builder{}
	fn := func(f string, a ...interface{}) { fmt.Fprintf(&body, f, a...) }
	for i := 0; i < opt.funcs; i++ {
		var ss []string
		for j := 0; j <= r.Intn(3); j++ {
			s, what := g.statement(0)
			ss = append(ss, s)
			p.t.Distinct("position", what)
		}
		st := strings.Join(ss, "\n\t")
		n := fmt.Sprintf("%s_%d", u, i)
		switch r.Intn(9) {
		case 0:
			fn("func init() {\n\t%s\n}\n\n", st)
		case 1:
			fn("func (l local_%s) m%d() {\n\t%s\n}\n\n", u, i, st)
		case 2:
			fn("func g%s[X any](x X) {\n\t%s\n}\n\n", n, st)
		case 3:
			fn("func f%s(a int, s ...string) (res string, err error) {\n\t%s\n\treturn %s, nil\n}\n\n", n, st, g.expr())
		case 4:
			fn("var x%s = func() string {\n\t%s\n\treturn %s\n}\n\n", n, st, g.expr())
		case 5:
			fn("var (\n\ty%s = %s\n\tz%s, _ = %s, %s\n\tw%s = map[string][]string{\"k\": {%s, %s}}\n)\n\n", n, g.expr(), n, g.expr(), g.expr(), n, g.expr(), g.expr())
		case 6:
			// comments with calls, and a type with a function field
			fn("// d%s calls %s.Get(\"in a doc comment\").\nfunc d%s() {\n\t/*\n\t%s.Get(\"in a block comment\")\n\t*/\n\t%s // %s.Get(\"at the end\")\n}\n\n", n, g.A, n, g.A, st, g.A)
		case 7:
			fn("var _ = struct{ f func(); s string }{func() {\n\t%s\n}, %s}\n\n", st, g.expr())
		default:
			fn("func f%s() {\n\t%s\n}\n\n", n, st)
		}
	}
	text := body.String()
	// what the calls need, under names of this file's own
	decl := strings.ReplaceAll(strings.ReplaceAll(xdecls, "@A", g.A), "@F", fake)
	b.WriteString("\n" + extra)
	if r.Intn(2) == 0 {
		b.WriteString(renameUses(decl, u) + "\n" + renameUses(text, u))
	} else {
		b.WriteString(renameUses(text, u) + "\n" + renameUses(decl, u))
	}
	if pkg.exported && p.files[filepath.Join(pkg.dir, "exports.go")] == "" {
		p.files[filepath.Join(pkg.dir, "exports.go")] = strings.ReplaceAll(strings.ReplaceAll(xexports, "@P", pkg.name), "@A", "lib")
	}
	p.finish(g, b.String())
}

var xmark = regexp.MustCompile("[\ue000\ue002]\\d+[\ue001\ue003]")

// finish notes the lines of the calls and takes the marks out.
func (p *xprog) finish(g *xgen, s string) {
	line, last := 1, 0
	var out strings.Builder
	for _, m := range xmark.FindAllStringIndex(s, -1) {
		out.WriteString(s[last:m[0]])
		line += strings.Count(s[last:m[0]], "\n")
		last = m[1]
		mark := []rune(s[m[0]:m[1]])
		i, _ := strconv.Atoi(string(mark[1 : len(mark)-1]))
		if mark[0] == '\ue000' {
			g.calls[i].l0 = line
		} else {
			g.calls[i].l1 = line
		}
	}
	out.WriteString(s[last:])
	p.files[g.file] = out.String()
	for _, c := range g.calls {
		if c.l0 > 0 {
			c.file = filepath.ToSlash(g.file)
			p.calls = append(p.calls, c)
		}
	}
}

// the names of the declarations get the file's name to be different in each file
var xnames = []string{"h", "e", "getPo", "gen", "gen2", "aliased", "global", "self", "box", "aliasTr", "locGlobal", "locAlias", "vs", "cs", "fs", "ss", "st", "ms", "ps", "vi", "anys", "chs", "loc", "local", "fnField", "hd", "iface", "genLoc", "holder", "embedded", "inner", "header", "getter", "aliasPo", "aliasT", "aliasL", "fields", "wrap", "wrapEmb", "myPo", "myTr", "myMap", "myFn", "myList"}

var xident = regexp.MustCompile("[\\pL_][\\pL\\pN_]*|\"(?:[^\"\\\\\\n]|\\\\.)*\"|`[^`]*`|'(?:[^'\\\\]|\\\\.)*'|//[^\\n]*|/\\*[\\s\\S]*?\\*/|\\.\\s*[\\pL_][\\pL\\pN_]*")

func renameUses(s, u string) string {
	set := map[string]bool{}
	for _, n := range xnames {
		set[n] = true
	}
	var out strings.Builder
	last := 0
	for _, m := range xident.FindAllStringIndex(s, -1) {
		w := s[m[0]:m[1]]
		out.WriteString(s[last:m[0]])
		last = m[1]
		if set[w] {
			w += "_" + u
		}
		out.WriteString(w)
	}
	out.WriteString(s[last:])
	return out.String()
}

const xdecls = `
type holder struct {
	po     *@A.Po
	mo     *@A.Mo
	d      @A.Domain
	l      *@A.Locale
	lv     @A.Locale
	ls     []*@A.Locale
	tr     @A.Translator
	at     @A.AppendTranslator
	ats    []@A.AppendTranslator
	pt     *@A.Translator
	list   []*@A.Po
	m      map[string]@A.Translator
	f      func() *@A.Mo
	fl     func(string, int) *@A.Locale
	ch     chan *@A.Po
	arr    [2]@A.Domain
	nested struct{ P *@A.Po }
	any    interface{}
	pp     **@A.Po
	te     *@A.TranslatorEncoding
	deep   [][]*@A.Domain
	slf    *holder
}

type aliasPo = @A.Po

type aliasT = @A.Translator

type aliasL = @A.Locale

type embedded struct {
	*@A.Po
	*@A.Locale
}

type box[X any] struct {
	v X
	p *X
}

var (
	h         = &holder{}
	e         embedded
	aliased   *aliasPo
	aliasTr   aliasT
	locAlias  aliasL
	global    @A.Mo
	locGlobal *@A.Locale
	vs        = strings.Repeat("x", 2)
	ss        = []string{"s"}
	st        fields
	ms        = map[string]string{}
	ps        = &vs
	vi        = 3
	anys      []interface{}
	chs       = make(chan string, 1)
	loc       local
	fnField   getter
	hd        header
	iface     interface{ Get(string) string }
	_         = reflect.TypeOf(@F.Get)
	_         = fmt.Sprint
)

const cs = "constant"

type fields struct{ f string }

type getter struct{ Get func(string) string }

type header map[string][]string

func (x header) Get(k string) string { return k }

func fs() string { return "s" }

func getPo() *@A.Po { return nil }

func gen[X any](x X) X { return x }

func gen2[X, Y any](x X) (y Y) { return }

func self() struct{ k *holder } { return struct{ k *holder }{h} }

type inner struct{}

func (inner) GetC(s, c string) string { return s }

type local struct{ in inner }

func (*local) Get(s string, v ...interface{}) string { return s }

func (*local) GetN(s, p string, n int, v ...interface{}) string { return s }

func (*local) GetD(d, s string, v ...interface{}) string { return s }

func (*local) GetC(s, c string, v ...interface{}) string { return s }

func (*local) GetNDC(d, s, p string, n int, c string, v ...interface{}) string { return s }

type genLoc[X any] struct{}

func (genLoc[X]) Get(s string) string { return s }

// types of the program made of the library's, with methods of their own
type wrap struct{ l *@A.Locale }

func (wrap) Get(s string) string { return s }

func (*wrap) GetD(d, s string) string { return s }

type wrapEmb struct{ *@A.Po }

func (wrapEmb) Get(s string) string { return s }

func (wrapEmb) GetN(s, p string, n int) string { return s }

type myPo @A.Mo

func (myPo) Get(s string) string { return s }

func (*myPo) GetC(s, c string) string { return s }

type myTr interface {
	Get(string, ...interface{}) string
	GetDomain() *@A.Domain
}

type myMap map[string]*@A.Po

func (myMap) Get(s string) string { return s }

type myFn func(*@A.Po) string

func (myFn) Get(s string) string { return s }

type myList []@A.Translator

func (myList) GetN(s, p string, n int) string { return s }
`

const xexports = `package @P

import @A "github.com/leonelquinteros/gotext"

// Value and the others are for other packages.
var (
	Value *@A.Po
	Loc   @A.Locale
	S     struct{ Field @A.Translator }
	M     map[int]*@A.Mo
)

// New makes one.
func New() *@A.Domain { return nil }

type Po struct{}

func (Po) Get(s string) string { return s }

type Locale struct{}

func (Locale) GetD(d, s string) string { return s }

func Get(s string) string { return s }
`

const xfake = `package gotext

// Po is not the library's.
type Po struct{}

// Locale is not the library's.
type Locale struct{}

func NewPo() *Po { return &Po{} }

func (Po) Get(s string, v ...interface{}) string { return s }

func (Po) GetC(s, c string, v ...interface{}) string { return s }

func (*Locale) GetD(d, s string, v ...interface{}) string { return s }

func Get(s string, v ...interface{}) string { return s }

func GetN(s, p string, n int, v ...interface{}) string { return s }
`

type xopt struct {
	pkgs, files, funcs int
	others             bool
	main               bool // for pkg-tree: a main package that imports all others
}

var xdirs = []string{"a", "ab", "a/b", "web", "web/ui", "internal/x", "cmd/tool", "deep/er/and/deeper", "gotext", "pkg", "x.y", "x-y", "B", "abc", "store/gotext"}

func xpkgName(dir string) string {
	n := strings.Map(func(c rune) rune {
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			return c
		}
		return '_'
	}, filepath.Base(dir))
	return n
}

func newXprog(t *T, text func(r *rand.Rand) string) *xprog {
	return &xprog{t: t, r: t.R, files: map[string]string{}, text: text, plur: map[string]string{}, domain: []string{"", "default", "dom", "other-domain", "dömäne", "a.b_c", "with space", xonlyCtx}}
}

// tree makes a module of packages with calls.
func (p *xprog) tree(opt xopt) {
	r := p.r
	dirs := append([]string(nil), xdirs...)
	r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	for i := 0; i < opt.pkgs; i++ {
		p.pkgs = append(p.pkgs, &xpkg{dir: dirs[i], name: xpkgName(dirs[i]), exported: true})
	}
	for i, k := range p.pkgs {
		// imports go one way
		all := p.pkgs
		p.pkgs = all[:i]
		for f := 0; f < 1+r.Intn(opt.files); f++ {
			p.file(k, xfileName(r, f), opt)
		}
		p.pkgs = all
	}
	if opt.main {
		var b strings.Builder
		b.WriteString("package main\n\nimport (\n")
		for i, k := range p.pkgs {
			fmt.Fprintf(&b, "\tp%d \"example.com/app/%s\"\n", i, k.dir)
		}
		b.WriteString(")\n\nfunc main() {\n")
		g := &xgen{p: p, r: r, sure: true, file: "main.go"}
		for i := range p.pkgs {
			recv := fmt.Sprintf("p%d.%s", i, []string{"Value", "New()", "S.Field", "M[2]", "Loc"}[r.Intn(5)])
			fmt.Fprintf(&b, "\tprintln(%s)\n", g.plain(recv))
		}
		b.WriteString("}\n")
		p.finish(g, b.String())
	}
	p.base()
}

// plain writes a call without further declarations.
func (g *xgen) plain(recv string) string {
	c := &xcall{what: "plain", id: g.p.text(g.r), sure: true}
	if _, ok := g.p.plur[c.key()]; ok {
		delete(g.p.plur, c.key())
	}
	g.calls = append(g.calls, c)
	i := len(g.calls) - 1
	return fmt.Sprintf("\ue000%d\ue001%s.Get(%s)\ue002%d\ue003", i, recv, g.p.goLiteral(c.id), i)
}

// base adds what every module needs.
func (p *xprog) base() {
	p.files["go.mod"] = "module example.com/app\n\ngo 1.25\n\nrequire github.com/leonelquinteros/gotext v0.0.0\n\nreplace github.com/leonelquinteros/gotext => /repo\n"
	b, _ := os.ReadFile("/repo/go.sum")
	p.files["go.sum"] = string(b)
	p.files["fake/gotext/fake.go"] = xfake
	p.files["github.com/leonelquinteros/gotext/fake.go"] = xfake
}

func (p *xprog) write(root string) {
	for f, s := range p.files {
		writeFile(filepath.Join(root, f), []byte(s))
	}
}

// ------------------------------------------------------------ running it

// startXgotext runs the extractor; a limit on processor time (not on time) ends a run that doesn't end.
func (t *T) startXgotext(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command("/bin/bash", append([]string{"-c", `ulimit -t 120; exec "$0" "$@"`, os.Getenv("XGOTEXT")}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOMAXPROCS=2")
	out, err := cmd.CombinedOutput()
	t.C.Progress()
	return out, err
}

// xgotext is a run that has to succeed.
func (t *T) xgotext(dir string, args ...string) (string, bool) {
	before := t.sources(dir, args)
	out, err := t.startXgotext(dir, args...)
	if d := diffTree(before, t.sources(dir, args)); d != "" {
		t.Failf("sources", "xgotext %q changed what is not its output: %s", args, d)
		return string(out), false
	}
	if err != nil || bytes.Contains(out, []byte("panic:")) || bytes.Contains(out, []byte("goroutine ")) {
		s := string(out)
		if i := strings.Index(s, "panic:"); i > 0 {
			s = s[i:]
		}
		t.Failf("failed", "xgotext %q: %v: %s", args, err, cut(s, 1500))
		return string(out), false
	}
	return string(out), true
}

// sources is every file of the tree the extractor works on, apart from the output directory.
func (t *T) sources(dir string, args []string) map[string]string {
	rel := ""
	for _, d := range append([]string{dir}, args...) {
		if x, err := filepath.Rel(t.Scratch, d); err == nil && !strings.HasPrefix(x, "..") && x != "." {
			rel = x
			break
		}
	}
	if rel == "" {
		panic("the tree isn't in the scratch directory: " + dir)
	}
	root := filepath.Join(t.Scratch, strings.Split(rel, "/")[0])
	out := ""
	if i := indexOf(args, "-out"); i >= 0 && i+1 < len(args) {
		if out = args[i+1]; !filepath.IsAbs(out) {
			out = filepath.Join(dir, out)
		}
	}
	res := map[string]string{}
	err := filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p == filepath.Clean(out) {
			if e.IsDir() {
				return fs.SkipDir
			}
			return nil
		}
		switch {
		case e.Name() == "go.mod" || e.Name() == "go.sum":
			// the go command's
		case e.IsDir():
			res[p] = "directory"
		case e.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			res[p] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			res[p] = "file " + string(b)
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	t.Count("files_watched", int64(len(res)))
	return res
}

func diffTree(a, b map[string]string) string {
	for p, x := range a {
		if y, ok := b[p]; !ok {
			return p + " is gone"
		} else if x != y {
			return p + " has been changed"
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return p + " is new"
		}
	}
	return ""
}

type xentry struct {
	dom  string
	item *POItem
	near bool // damaged sources may have had their say in its plural
}

// templates reads what was written.
func (t *T) templates(out string, emptyCtx bool) (map[string]*xentry, bool) {
	res := map[string]*xentry{}
	es, err := os.ReadDir(out)
	if err != nil {
		t.Failf("no-output", "%v", err)
		return nil, false
	}
	for _, e := range es {
		dom := strings.TrimSuffix(e.Name(), ".pot")
		if dom == e.Name() {
			t.Failf("file", "unexpected file %q", e.Name())
			return nil, false
		}
		b, err := os.ReadFile(filepath.Join(out, e.Name()))
		if err != nil {
			t.Failf("file", "%v", err)
			return nil, false
		}
		items, err := readPO(b, emptyCtx)
		if err != nil {
			t.Failf("not-po", "%s: %v", e.Name(), err)
			return nil, false
		}
		if len(items) == 0 || items[0].ID != "" || items[0].HasCtx {
			t.Failf("not-po", "%s doesn't begin with a header", e.Name())
			return nil, false
		}
		if len(items) == 1 {
			t.Failf("empty", "%s holds no messages", e.Name())
			return nil, false
		}
		for _, it := range items[1:] {
			t.Count("entries", 1)
			k := (&xcall{dom: dom, ctx: it.Ctx, id: it.ID}).key()
			res[k] = &xentry{dom, it, false}
		}
	}
	return res, true
}

// expect compares the templates with the calls; found tells which calls count.
func (t *T) expect(res map[string]*xentry, calls []*xcall, def string, where string, prefix string) bool {
	want := map[string][]*xcall{}
	for _, c := range calls {
		d := *c
		if d.dom == "" {
			d.dom = def
		}
		want[d.key()] = append(want[d.key()], c)
	}
	for k, e := range res {
		cs := want[k]
		if cs == nil {
			t.Failf("extra", "%s: entry %s (%v) of no call", where, k, e.item.Refs)
			return false
		}
		plurals := map[string]bool{}
		must := false
		for _, c := range cs {
			plurals[c.plural] = true
			must = must || (c.plural != "" && c.sure)
		}
		if !e.near && !plurals[e.item.Plural] || (must && e.item.Plural == "") {
			t.Failf("plural", "%s: entry %s has the plural %q, the calls have %v", where, k, e.item.Plural, plurals)
			return false
		}
		if !e.near && must && len(e.item.Forms) != 2 || !e.item.HasPl && len(e.item.Forms) != 1 {
			t.Failf("forms", "%s: entry %s has the forms %q", where, k, e.item.Forms)
			return false
		}
		for i, f := range e.item.Forms {
			if f != "" {
				t.Failf("translated", "%s: entry %s has the translation %d %q", where, k, i, f)
				return false
			}
		}
		for _, ref := range e.item.Refs {
			i := strings.LastIndex(ref, ":")
			n, err := strconv.Atoi(ref[i+1:])
			ok := false
			for _, c := range cs {
				ok = ok || (i > 0 && err == nil && prefix+c.file == ref[:i] && c.l0 <= n && n <= c.l1)
			}
			if !ok {
				t.Failf("reference", "%s: entry %s has the reference %q, the calls are at %s", where, k, ref, callSites(cs))
				return false
			}
			t.Count("references", 1)
		}
		for _, c := range cs {
			if !c.sure {
				continue
			}
			ok := false
			for _, ref := range e.item.Refs {
				i := strings.LastIndex(ref, ":")
				n, _ := strconv.Atoi(ref[i+1:])
				ok = ok || (prefix+c.file == ref[:i] && c.l0 <= n && n <= c.l1)
			}
			if !ok {
				t.Failf("no-reference", "%s: entry %s has the references %q, none for the call (%s) at %s", where, k, e.item.Refs, c.what, callSites([]*xcall{c}))
				return false
			}
		}
	}
	var missing []string
	for k, cs := range want {
		if res[k] == nil {
			for _, c := range cs {
				if c.sure {
					missing = append(missing, fmt.Sprintf("%s (%s at %s)", k, c.what, callSites([]*xcall{c})))
					break
				}
			}
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		t.Failf("missing", "%s: %d calls without an entry: %s", where, len(missing), cut(strings.Join(missing, "; "), 600))
		return false
	}
	return true
}

func callSites(cs []*xcall) string {
	var out []string
	for _, c := range cs {
		out = append(out, fmt.Sprintf("%s:%d-%d", c.file, c.l0, c.l1))
	}
	return strings.Join(out, " ")
}

// keepProgram copies the program into the log of a failed case.
func (t *T) logFile(p *xprog, name string) {
	if t.Failed() {
		t.Logf("%s:\n%s", name, p.files[name])
	}
}

func runC31(c *C) {
	c.Cases("programs", c.N(45, 1200), par(), func(t *T) {
		r := t.R
		p := newXprog(t, func(r *rand.Rand) string {
			return fmt.Sprintf("message %d %s", r.Intn(400), []string{"", "", "%d of %s", "with \"quotes\"", "and\nlines", "ünï"}[r.Intn(6)])
		})
		tree := t.Index%3 == 2
		p.tree(xopt{pkgs: 1 + r.Intn(3), files: 2, funcs: 4 + r.Intn(12), others: true, main: tree})
		root := filepath.Join(t.Scratch, fmt.Sprintf("x31-%d", t.Index))
		defer os.RemoveAll(root)
		src, out := filepath.Join(root, "src"), filepath.Join(root, "out")
		p.write(src)
		if !t.compiles(src) {
			return
		}
		t.Count("programs", 1)
		t.Count("calls", int64(len(p.calls)))
		def := []string{"", "default", "main"}[r.Intn(3)]
		var args []string
		cwd, prefix := root, ""
		if tree {
			t.Count("pkg_tree_runs", 1)
			switch r.Intn(2) {
			case 0:
				cwd = src
				args = []string{"-pkg-tree", ".", "-out", out}
			default:
				args = []string{"-pkg-tree", src, "-out", out}
				prefix = "src/"
			}
		} else {
			t.Count("dir_runs", 1)
			args = []string{"-in", []string{"src", src, "./src/", "../" + filepath.Base(root) + "/src", t.linkTo(root, "src")}[r.Intn(5)], "-out", []string{"out", out}[r.Intn(2)]}
		}
		if def != "" {
			args = append(args, "-default", def)
		} else {
			def = "default"
		}
		if r.Intn(4) == 0 {
			args = append(args, "-v")
		}
		if _, ok := t.xgotext(cwd, args...); !ok {
			return
		}
		res, ok := t.templates(out, false)
		if !ok {
			return
		}
		calls := p.calls
		if t.expect(res, calls, def, strings.Join(args[:1], " "), prefix) {
			for _, c := range calls {
				t.Distinct("call", c.what)
				t.Eval()
			}
		}
		if t.Index < 3 {
			t.Sample(fmt.Sprintf("%v: %d calls in %d files, %d entries", args, len(calls), len(p.files), len(res)))
		}
	})
}

// simple writes a file of plain calls on the package.
func (p *xprog) simple(dir, name, pkg string, n int, sure bool) {
	alias := []string{"", "gt", "i18n"}[p.r.Intn(3)]
	g := &xgen{p: p, r: p.r, sure: sure, file: filepath.Join(dir, name), A: alias, depth: 5}
	if alias == "" {
		g.A = "gotext"
	}
	var b strings.Builder
	b.WriteString(p.top())
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\n", pkg, alias, libPath)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "var v%d_%s = %s\n\n", i, xpkgName(strings.TrimSuffix(name, ".go")), g.literalCall(g.A, "package", xfns[p.r.Intn(len(xfns))]))
	}
	p.finish(g, b.String())
}

// literalCall writes a call with literals only.
func (g *xgen) literalCall(recv, kind string, fn xfn) string {
	g.lit = true
	defer func() { g.lit = false }()
	return g.write(recv, kind, fn)
}

var xpieces = []string{`"`, `\`, `\n`, "\n", "\t", "\r", "\r\n", "\a", "\b", "\f", "\v", "\x7f", "\x01", "\x1b[0m", "\u0085", "\u2028", "\u2029", "\ufeff", "\u00a0", "é", "é", "שלום", "😀", "\ufffd", "\U0010ffff", "\ufffe", "%s", "%(name)s", `msgid "x"`, "\n\"", "\n#: x.go:1\n", "\nmsgid \"y\"\nmsgstr \"\"\n", " ", "  ", `\"`, `\\"`, `\x41`, `\u0041`, `\101`, "'", "a", "word", "`", "{}", "\\\n", "\x04", "|", "#", "#~", "\n\n", "日本語", "-", "msgctxt", "ｆ", "\u3000", "\u200b", "=", ":", "0"}

func xhostile(r *rand.Rand) string {
	var b strings.Builder
	n := 1 + r.Intn(6)
	if r.Intn(60) == 0 {
		n = 2000
	} else if r.Intn(250) == 0 {
		b.WriteString(longText(r, size(r)))
	}
	for i := 0; i < n; i++ {
		b.WriteString(xpieces[r.Intn(len(xpieces))])
	}
	return b.String()
}

func runC32(c *C) {
	c.Cases("literals", c.N(36, 700), par(), func(t *T) {
		r := t.R
		p := newXprog(t, xhostile)
		p.freely = true
		p.domain = []string{"", "", "", "dom", "default", "dömäne", xonlyCtx}
		tree := t.Index%4 == 3
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			p.simple(fmt.Sprintf("p%d", i), fmt.Sprintf("f%d.go", i), fmt.Sprintf("p%d", i), 30+r.Intn(60), true)
			if r.Intn(2) == 0 {
				p.simple(fmt.Sprintf("p%d", i), "g.go", fmt.Sprintf("p%d", i), 30+r.Intn(60), true)
			}
		}
		if tree {
			var b strings.Builder
			b.WriteString("package main\n\nimport (\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "\t_ \"example.com/app/p%d\"\n", i)
			}
			p.files["main.go"] = b.String() + ")\n\nfunc main() {}\n"
		}
		p.base()
		root := filepath.Join(t.Scratch, fmt.Sprintf("x32-%d", t.Index))
		defer os.RemoveAll(root)
		src, out := filepath.Join(root, "src"), filepath.Join(root, "out")
		p.write(src)
		if !t.compiles(src) {
			return
		}
		t.Count("programs", 1)
		t.Count("literals", int64(len(p.calls)))
		for _, k := range p.calls {
			if len(k.id) > 1<<16 || len(k.ctx) > 1<<16 || len(k.plural) > 1<<16 {
				t.Count("long_literals", 1)
			}
		}
		seen := map[string]int{}
		for _, k := range p.calls {
			seen[k.key()]++
			if seen[k.key()] == 2 {
				t.Count("shared_messages", 1)
			}
		}
		def := []string{"default", "default", "main"}[r.Intn(3)]
		run := func(o string, other bool) bool {
			in, cwd := "src", root
			mode := "-in"
			if tree {
				in, mode, cwd = ".", "-pkg-tree", src
				if other {
					in = src
				}
				o = filepath.Join(root, o)
			} else if other {
				in, cwd, o = src, "/", filepath.Join(root, o)
			}
			args := []string{mode, in, "-out", o}
			if def != "default" {
				args = append(args, "-default", def)
			}
			_, ok := t.xgotext(cwd, args...)
			return ok
		}
		if !run("out", false) {
			return
		}
		res, ok := t.templates(out, false)
		if !ok || !t.expect(res, p.calls, def, "literals", "") {
			return
		}
		// as the library loads it
		es, _ := os.ReadDir(out)
		for _, e := range es {
			b, _ := os.ReadFile(filepath.Join(out, e.Name()))
			items, _ := strictPO(b)
			po := gotext.NewPo()
			if r.Intn(2) == 0 {
				po.Parse(b)
			} else {
				po.ParseFile(filepath.Join(out, e.Name()))
			}
			got := snapshot(po.GetDomain())
			delete(got, Key{})
			for _, it := range items[1:] {
				k := Key{it.Ctx, it.ID}
				g := got[k]
				if g == nil {
					t.Failf("load", "%s: the library doesn't find %s", e.Name(), k)
					return
				}
				if g.Plural != it.Plural {
					t.Failf("load", "%s: %s: the library has the plural %q, not %q", e.Name(), k, g.Plural, it.Plural)
					return
				}
				if !sameStrings(g.Refs, it.Refs) {
					t.Failf("load", "%s: %s: the library has the references %q, not %q", e.Name(), k, g.Refs, it.Refs)
					return
				}
				for i, f := range g.Forms {
					if f != "" {
						t.Failf("load", "%s: %s: the library has the form %d %q", e.Name(), k, i, f)
						return
					}
				}
				delete(got, k)
				t.Count("loaded_entries", 1)
				t.Distinct("literal", it.Ctx, it.ID)
				t.Eval()
			}
			for k := range got {
				t.Failf("load", "%s: the library has %s besides", e.Name(), k)
				return
			}
		}
		// again: elsewhere, and over longer files
		for i := 0; i < 3; i++ {
			o := fmt.Sprintf("out%d", i)
			if i == 2 {
				for _, e := range es {
					writeFile(filepath.Join(root, o, e.Name()), bytes.Repeat([]byte("# old\nmsgid \"old\"\nmsgstr \"\"\n\n"), 20000))
				}
			}
			if !run(o, i == 1) {
				return
			}
			t.Count("reruns", 1)
			es2, _ := os.ReadDir(filepath.Join(root, o))
			if len(es2) != len(es) {
				t.Failf("rerun", "%d files, before %d", len(es2), len(es))
				return
			}
			if i == 1 && tree {
				continue // other references
			}
			for _, e := range es {
				a, _ := os.ReadFile(filepath.Join(out, e.Name()))
				b, _ := os.ReadFile(filepath.Join(root, o, e.Name()))
				if !bytes.Equal(a, b) {
					j := 0
					for j < len(a) && j < len(b) && a[j] == b[j] {
						j++
					}
					t.Failf("rerun", "run %d wrote another %s: at byte %d %q instead of %q", i+2, e.Name(), j, cut(string(b[j:]), 60), cut(string(a[j:]), 60))
					return
				}
			}
		}
		// templates that can't be written
		bad := filepath.Join(root, "bad")
		victim := es[r.Intn(len(es))].Name()
		kind := r.Intn(4)
		switch kind {
		case 0, 1: // no space left on the device
			os.MkdirAll(bad, 0o755)
			if err := os.Symlink("/dev/full", filepath.Join(bad, victim)); err != nil {
				panic(err)
			}
		case 2:
			os.MkdirAll(filepath.Join(bad, victim), 0o755)
		case 3:
			writeFile(bad, []byte("a file"))
		}
		in, mode, cwd := "src", "-in", root
		if tree {
			in, mode, cwd = ".", "-pkg-tree", src
		}
		msg, err := t.startXgotext(cwd, mode, in, "-out", bad, "-default", def)
		t.Count("write_faults", 1)
		if err == nil || bytes.Contains(msg, []byte("goroutine ")) {
			t.Failf("write-fault", "%s can't be written (%s), but xgotext ends with: %v %s", victim, []string{"no space", "no space", "a directory", "the output directory is a file"}[kind], err, cut(string(msg), 800))
			return
		}
		if t.Index < 3 {
			t.Sample(fmt.Sprintf("%d calls, %d entries in %d templates; first: %s", len(p.calls), len(res), len(es), p.calls[0].key()))
		}
	})
}

// linkTo makes a link to a directory, which need not exist.
func (t *T) linkTo(root, name string) string {
	os.MkdirAll(root, 0o755)
	if err := os.Symlink(name, filepath.Join(root, "link")); err != nil {
		panic(err)
	}
	return "link"
}

// compiles makes sure that the generator's programs are valid, in development.
func (t *T) compiles(src string) bool {
	if os.Getenv("XGO_COMPILE") == "" {
		return true
	}
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false")
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Failf("harness", "program doesn't compile: %s", b)
		return false
	}
	return true
}

var xexDirs = []string{"a", "ab", "a/b", "a/b/c", "a.b", "a-b", "x/a", "x/ab", "x", "b", "b/a", ".git", ".github", ".gitx/y", "sub/.git", "_under", "testdata", "A1", "a/ab", "x/y/z", "node_modules", "node_modules/m", ".hidden/in", "gotext", "internal", "a1/a1", "a1", "x.go", "build", "out", "dist/build"}

type xdamage struct {
	name string
	do   func(p *xprog, dir string)
}

var ximports = []string{"foo/...", "...", "", "file=x.go", "query=x", "contains:x", "-x", "C", "unsafe", "./a", "../a", "a b", "all", "std", "name=foo", "pattern=foo/...", "no/such/package", "example.com/app/none", "/abs", "github.com/leonelquinteros/gotext/none", "example.com/app/d0", "main", "\x00", "file=", "pattern=", "pattern=.", "file=/repo/po.go", "@", "a@v1", "\\", "*", "..", "."}

var xdamages = []xdamage{
	{"cut", func(p *xprog, d string) {
		f := d + "/bad.go"
		p.simple(d, "bad.go", xpkgName(d), 4, false)
		s := p.files[f]
		p.files[f] = s[:p.r.Intn(len(s))]
		p.anything = true
	}},
	{"bytes", func(p *xprog, d string) {
		f := d + "/bad.go"
		p.simple(d, "bad.go", xpkgName(d), 4, false)
		b := []byte(p.files[f])
		for i := 0; i < 1+p.r.Intn(4); i++ {
			b[p.r.Intn(len(b))] = byte(p.r.Intn(256))
		}
		p.files[f] = string(b)
		p.anything = true
	}},
	{"import", func(p *xprog, d string) {
		i := ximports[p.r.Intn(len(ximports))]
		a := []string{"", "_ ", ". ", "gotext ", "x "}[p.r.Intn(5)]
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport %s%s\n\nimport %q\n\nvar _ = gotext.Get(%q)\n", xpkgName(d), a, strconv.Quote(i), libPath, "beside a bad import")
		p.calls = append(p.calls, &xcall{id: "beside a bad import", file: d + "/bad.go", l0: 7, l1: 7})
	}},
	{"undefined", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport %q\n\nvar _ = gotext.Undefined(undefined.Get(\"u\"), gotext.Get(\"beside undefined\"), gotext.Po{}.None.Get(\"n\"))\n\nvar x undefined.Type\n\nvar _ = x.Get(\"on an undefined type\")\n\nfunc f(y nowhere, z ...undefined.T) { y.Get(\"y\"); z[0].GetN(\"z\", \"zs\", 2); gotext.GetN(); gotext.Get; gotext.GetD(\"only a domain\"); gotext.GetNDC(\"d\", \"i\", \"p\") }\n", xpkgName(d), libPath)
		p.calls = append(p.calls, &xcall{id: "beside undefined", file: d + "/bad.go", l0: 5, l1: 5})
	}},
	{"many errors", func(p *xprog, d string) {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"os\"\n\t\"unused\"\n)\n\nfunc many() int {\n", xpkgName(d))
		for i := 0; i < 2+p.r.Intn(40); i++ {
			b.WriteString([]string{"\tnone()\n", "\tvar x int = \"s\"\n", "\tx := 1\n", "\treturn \"s\"\n", "\tbreak\n", "\tgoto nowhere\n", "\ttype T struct { T }\n", "\tos.None()\n", "\t_ = 1 / 0\n"}[p.r.Intn(9)])
		}
		p.files[d+"/bad.go"] = b.String() + "}\n"
	}},
	{"syntax errors", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\n%s", xpkgName(d), strings.Repeat("func ( {\n}}\nvar = 3 +\n) ]\nfor\n", 1+p.r.Intn(10)))
	}},
	{"wrong types", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport %q\n\nvar _ int = gotext.Get(\"as a number\")\n\nvar _ = gotext.GetN(\"one\", \"many\", \"not a number\")\n", xpkgName(d), libPath)
		p.calls = append(p.calls, &xcall{id: "as a number", file: d + "/bad.go", l0: 5, l1: 5}, &xcall{id: "one", plural: "many", hasPl: true, file: d + "/bad.go", l0: 7, l1: 7})
	}},
	{"not imported", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nvar _ = gotext.Get(\"without an import\")\n\nvar _ = undefined.Get(\"x\")\n", xpkgName(d))
	}},
	{"other package", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = "package something_else\n"
		p.files[d+"/zz.go"] = "package zz\n"
	}},
	{"no clause", func(p *xprog, d string) { p.files[d+"/bad.go"] = "import \"fmt\"\n" }},
	{"empty", func(p *xprog, d string) { p.files[d+"/bad.go"] = "" }},
	{"comment", func(p *xprog, d string) { p.files[d+"/bad.go"] = "// nothing" }},
	{"binary", func(p *xprog, d string) {
		b := make([]byte, 2000)
		p.r.Read(b)
		p.files[d+"/bad.go"] = string(b)
	}},
	{"twice", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nvar twice = 1\n\nvar twice = 2\n\nfunc twice() {}\n\ntype T struct{ T }\n\ntype I interface{ I }\n\ntype A = A\n", xpkgName(d))
	}},
	{"self import", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport _ \"example.com/app/%s\"\n", xpkgName(d), d)
	}},
	{"deep", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nvar deep = %s1%s\n", xpkgName(d), strings.Repeat("(", 3000), strings.Repeat(")", 3000))
	}},
	{"build tag", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("//go:build ignore\n\npackage %s\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc main() { gotext.Get(\"ignored\") }\n", []string{"main", xpkgName(d)}[p.r.Intn(2)])
		p.calls = append(p.calls, &xcall{id: "ignored", file: d + "/bad.go", l0: 7, l1: 7})
	}},
	{"test file", func(p *xprog, d string) {
		p.files[d+"/bad_test.go"] = fmt.Sprintf("package %s_test\n\nimport \"no/such/thing\"\n\nfunc (", xpkgName(d))
	}},
	{"embed", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport _ \"embed\"\n\n//go:embed nothing.txt\nvar s string\n", xpkgName(d))
	}},
	{"generics", func(p *xprog, d string) {
		p.files[d+"/bad.go"] = fmt.Sprintf("package %s\n\nimport %q\n\ntype X[T gotext.Translator] struct{ t T }\n\nfunc (x X[T]) f() { x.t.Get(\"of a type parameter\"); x.t.GetN(\"p\", \"ps\", 1) }\n\nfunc g[T any, U interface{ *gotext.Po | *gotext.Mo; Get(string, ...interface{}) string }](t T, u U) { u.Get(\"u\"); any(t).(gotext.Translator).Get(\"asserted\"); g[int, *gotext.Po](1, nil) }\n\nvar m = (*gotext.Po).Get\n\nvar _ = (*gotext.Po).Get(nil, \"method expression\")\n\nvar _ = gotext.Translator.GetC(nil, \"a\", \"b\")\n\nvar _ = gotext.Get(string([]byte{65}), 1)\n\nvar _ = gotext.GetC(\"a\"+\"b\", \"c\")\n\nvar _ = gotext.GetNDC(gotext.GetDomain(), \"a\", fs(), 1, \"\"+\"x\")\n\nfunc fs() string { return \"\" }\n\nvar _ = gotext.Get(fs())\n\nvar _ = gotext.GetD(fs(), fs())\n\nvar _ = gotext.Get(('x'))\n\nvar _ = gotext.GetN(1, 2.5, 'c')\n\nvar _ = gotext.Get(\"\")\n\nvar _ = gotext.GetC(\"\", \"only a context\")\n", xpkgName(d), libPath)
		for _, k := range []*xcall{{id: "asserted"}, {id: "of a type parameter"}, {id: "p", plural: "ps", hasPl: true}, {id: "u"}, {id: "method expression"}, {id: "a", ctx: "b"}, {id: "ab", ctx: "c"}} {
			k.file, k.l0, k.l1 = d+"/bad.go", 1, 1000
			p.calls = append(p.calls, k)
		}
	}},
}

func runC33(c *C) {
	c.Cases("exclusions", c.N(34, 700), par(), func(t *T) {
		r := t.R
		p := newXprog(t, func(r *rand.Rand) string { return fmt.Sprintf("m%d", r.Intn(60)) })
		p.domain = []string{"", "", "dom"}
		dirs := append([]string(nil), xexDirs...)
		r.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
		dirs = dirs[:5+r.Intn(5)]
		if r.Intn(4) == 0 {
			dirs = append(dirs, "")
		}
		for _, d := range dirs {
			p.simple(d, "f.go", "p", 1+r.Intn(3), true)
		}
		// what is excluded
		var list []string
		excluded := map[string]bool{}
		root := filepath.Join(t.Scratch, fmt.Sprintf("x33-%d", t.Index))
		defer os.RemoveAll(root)
		args := []string{"-in", []string{"src", "src", "src", t.linkTo(root, "src")}[r.Intn(4)], "-out", "out"}
		if r.Intn(6) == 0 {
			excluded[".git"] = true
		} else {
			for i := 0; i < r.Intn(4); i++ {
				d := dirs[r.Intn(len(dirs))]
				switch r.Intn(5) {
				case 0:
					d = xexDirs[r.Intn(len(xexDirs))]
				case 1:
					d = filepath.Dir(d)
				case 2:
					d = filepath.Base(d) // perhaps another one
				}
				if d == "" || d == "." || strings.Contains(d, ",") {
					continue
				}
				excluded[d] = true
				switch r.Intn(6) {
				case 0:
					d += "/"
				case 1:
					d = "./" + d
				}
				list = append(list, d)
				if r.Intn(6) == 0 {
					list = append(list, []string{"", "none", d, "a/none", "./", "src"}[r.Intn(5)])
				}
			}
			if indexOf(list, "./") >= 0 {
				list = nil
				excluded = map[string]bool{}
			}
			args = append(args, "-exclude", strings.Join(list, ","))
		}
		gone := func(d string) bool {
			for d != "." && d != "" && d != "/" {
				if excluded[d] {
					return true
				}
				d = filepath.Dir(d)
			}
			return false
		}
		var calls []*xcall
		for _, k := range p.calls {
			if !gone(filepath.Dir(k.file)) {
				calls = append(calls, k)
			}
		}
		for _, d := range dirs {
			if gone(d) {
				t.Count("excluded_directories", 1)
			} else {
				t.Count("kept_directories", 1)
				for e := range excluded {
					if strings.HasPrefix(d, e) || strings.Contains("/"+d+"/", "/"+e+"/") {
						t.Count("alike_names", 1)
					}
				}
			}
		}
		p.base()
		p.write(filepath.Join(root, "src"))
		t.Count("programs", 1)
		t.Logf("directories %q, %q", dirs, args)
		if _, ok := t.xgotext(root, args...); !ok {
			return
		}
		res, ok := t.templates(filepath.Join(root, "out"), false)
		if !ok || !t.expect(res, calls, "default", fmt.Sprintf("%q of %q", args, dirs), "") {
			return
		}
		sort.Strings(dirs)
		sort.Strings(list)
		t.Distinct("tree", strings.Join(dirs, " "), strings.Join(list, ","))
		t.Eval()
		if t.Index < 3 {
			t.Sample(fmt.Sprintf("%v on %q", args, dirs))
		}
	})

	// command lines that can not be carried out
	c.Cases("usage", c.N(16, 120), par(), func(t *T) {
		r := t.R
		p := newXprog(t, func(r *rand.Rand) string { return fmt.Sprintf("m%d", r.Intn(60)) })
		p.domain = []string{"", "dom"}
		p.simple("a", "f.go", "p", 2, true)
		p.base()
		root := filepath.Join(t.Scratch, fmt.Sprintf("x33u-%d", t.Index))
		defer os.RemoveAll(root)
		src := filepath.Join(root, "src")
		p.write(src)
		lines := [][]string{
			{},
			{"-in", "src"},
			{"-pkg-tree", "src"},
			{"-out", "out"},
			{"-in", "src", "-pkg-tree", "src", "-out", "out"},
			{"-in", "missing", "-out", "out"},
			{"-in", t.linkTo(root, "missing"), "-out", "out"},
			{"-pkg-tree", filepath.Join(root, "missing"), "-out", "out"},
		}
		args := append([]string(nil), lines[int(t.Index)%len(lines)]...)
		if r.Intn(2) == 0 {
			args = append(args, "-v")
		}
		if r.Intn(2) == 0 {
			args = append(args, "-default", "def")
		}
		before := t.sources(root, nil)
		out, err := t.startXgotext(root, args...)
		if err == nil {
			t.Failf("usage", "xgotext %q ends without an error: %s", args, cut(string(out), 300))
			return
		}
		if bytes.Contains(out, []byte("panic:")) || bytes.Contains(out, []byte("goroutine ")) {
			t.Failf("usage", "xgotext %q: %s", args, cut(string(out), 1500))
			return
		}
		if d := diffTree(before, t.sources(root, nil)); d != "" {
			t.Failf("usage", "xgotext %q fails, but %s", args, d)
			return
		}
		t.Count("refused_command_lines", 1)
		t.Distinct("usage", strings.Join(args, " "))
		t.Eval()
	})

	// an output that can't be written, or not to its end, is no success
	c.Cases("unwritable", c.N(20, 200), par(), func(t *T) {
		r := t.R
		p := newXprog(t, func(r *rand.Rand) string { return fmt.Sprintf("m%d", r.Intn(900)) })
		p.domain = []string{"", "dom"}[:1+int(t.Index)/5%2]
		p.simple("a", "f.go", "p", 40+r.Intn(200), true)
		p.base()
		root := filepath.Join(t.Scratch, fmt.Sprintf("x33w-%d", t.Index))
		defer os.RemoveAll(root)
		p.write(filepath.Join(root, "src"))
		good, out := filepath.Join(root, "good"), filepath.Join(root, "out")
		if _, ok := t.xgotext(root, "-in", "src", "-out", good); !ok {
			return
		}
		names := []string{"default.pot", "dom.pot"}
		if !exists(filepath.Join(good, names[1])) {
			names = names[:1]
		}
		bad := filepath.Join(out, names[r.Intn(len(names))])
		result := out
		args := []string{"-in", "src", "-out", out}
		var msg []byte
		var err error
		kind := int(t.Index) % 5
		switch kind {
		case 0:
			writeFile(out, []byte("not a directory"))
		case 1:
			writeFile(out, []byte("not a directory"))
			args[3] = filepath.Join(out, "deeper")
			result = args[3]
		case 2:
			os.MkdirAll(bad, 0o755)
		case 3:
			os.MkdirAll(out, 0o755)
			os.Symlink("/dev/full", bad)
		}
		before := t.sources(root, args)
		if kind == 4 {
			// a file system with room for the beginning only, in a mount namespace of its own
			os.MkdirAll(out, 0o755)
			result = filepath.Join(root, "copy")
			os.MkdirAll(result, 0o755)
			before = t.sources(root, args)
			cmd := exec.Command("unshare", "-Urm", "/bin/bash", "-c", `mount -t tmpfs -o size=$1k none "$2" || { echo no-mount; exit 99; }
ulimit -t 120
"$0" -in src -out "$2"; rc=$?
cp "$2"/* "$3"/
exit $rc`, os.Getenv("XGOTEXT"), fmt.Sprint(4*(1+r.Intn(2))), out, result)
			cmd.Dir = root
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOMAXPROCS=2")
			msg, err = cmd.CombinedOutput()
			t.C.Progress()
			if err != nil && (bytes.Contains(msg, []byte("no-mount")) || bytes.Contains(msg, []byte("unshare:"))) {
				t.Count("without_small_disk", 1)
				return
			}
			t.Count("small_disk", 1)
			before = nil
		} else {
			msg, err = t.startXgotext(root, args...)
		}
		t.Count("unwritable", 1)
		t.Eval()
		t.Distinct("unwritable", fmt.Sprint(kind), bad)
		if bytes.Contains(msg, []byte("panic:")) || bytes.Contains(msg, []byte("goroutine ")) {
			t.Failf("unwritable", "xgotext %q: %s", args, cut(string(msg), 1500))
			return
		}
		if before != nil {
			if d := diffTree(before, t.sources(root, args)); d != "" {
				t.Failf("unwritable", "xgotext %q: %s", args, d)
				return
			}
		}
		if err != nil {
			t.Count("reported", 1)
			return
		}
		for _, n := range names {
			a, _ := os.ReadFile(filepath.Join(good, n))
			st, serr := os.Stat(filepath.Join(result, n))
			if serr != nil || !st.Mode().IsRegular() {
				t.Failf("unwritable", "xgotext %q ends without an error, but there is no %s: %v", args, n, serr)
				return
			}
			if b, _ := os.ReadFile(filepath.Join(result, n)); !bytes.Equal(a, b) {
				t.Failf("unwritable", "xgotext %q ends without an error, but %s has %d bytes of %d", args, n, len(b), len(a))
				return
			}
		}
		t.Count("written_in_full", 1)
	})

	c.Cases("broken", c.N(34, 700), par(), func(t *T) {
		r := t.R
		p := newXprog(t, func(r *rand.Rand) string { return fmt.Sprintf("m%d", r.Intn(60)) })
		p.domain = []string{"", "dom"}
		var names []string
		n := 3 + r.Intn(3)
		for i := 0; i < n; i++ {
			d := fmt.Sprintf("d%d", i)
			broken := i == 0 || r.Intn(2) == 0
			p.simple(d, "f.go", d, 2+r.Intn(3), true)
			if !broken {
				continue
			}
			x := xdamages[r.Intn(len(xdamages))]
			if i == 0 {
				x = xdamages[int(t.Index)%len(xdamages)]
			}
			names = append(names, x.name)
			x.do(p, d)
			t.Count("broken_files", 1)
			t.Count("calls_beside_broken_files", 1)
			t.Distinct("damage", x.name)
		}
		p.base()
		root := filepath.Join(t.Scratch, fmt.Sprintf("x33b-%d", t.Index))
		defer os.RemoveAll(root)
		src := filepath.Join(root, "src")
		tree := r.Intn(4) == 0
		if tree {
			var b strings.Builder
			b.WriteString("package main\n\nimport (\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "\t_ \"example.com/app/d%d\"\n", i)
			}
			p.files["main.go"] = b.String() + ")\n\nfunc main() {}\n"
		}
		p.write(src)
		odd := r.Intn(6)
		switch odd {
		case 0:
			os.Symlink("nowhere.go", filepath.Join(src, "d0", "link.go"))
		case 1:
			os.MkdirAll(filepath.Join(src, "d0", "dir.go"), 0o755)
		case 2:
			os.Symlink("..", filepath.Join(src, "d0", "up"))
		case 3:
			os.MkdirAll(filepath.Join(src, "empty", "empty"), 0o755)
			writeFile(filepath.Join(src, "text", "go.txt"), []byte("package x"))
		}
		t.Count("programs", 1)
		t.Logf("damage %q, odd %d, pkg-tree %v", names, odd, tree)
		mode, in, cwd := "-in", []string{"src", "src", "src", t.linkTo(root, "src")}[r.Intn(4)], root
		if tree {
			mode, in, cwd = "-pkg-tree", ".", src
		}
		if _, ok := t.xgotext(cwd, mode, in, "-out", filepath.Join(root, "out")); !ok {
			return
		}
		if tree && !exists(filepath.Join(root, "out")) {
			return
		}
		res, ok := t.templates(filepath.Join(root, "out"), p.anything)
		if !ok {
			return
		}
		if p.anything {
			// changed bytes can make other messages: only the others count
			for k, e := range res {
				bad := len(e.item.Refs) > 0
				for _, ref := range e.item.Refs {
					bad = bad && strings.Contains(ref, "bad.go:")
				}
				if bad {
					delete(res, k)
				} else {
					var rs []string
					for _, ref := range e.item.Refs {
						if !strings.Contains(ref, "bad.go:") {
							rs = append(rs, ref)
						} else {
							e.near = true
						}
					}
					e.item.Refs = rs
				}
			}
		}
		if !t.expect(res, p.calls, "default", fmt.Sprintf("damage %q", names), "") {
			return
		}
		t.Distinct("broken", strings.Join(names, " "), fmt.Sprint(odd, tree))
		t.Eval()
	})
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }
