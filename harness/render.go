package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// ------------------------------------------------------------- PO

// poWriter writes PO files in random legal layouts.
type poWriter struct {
	r     *rand.Rand
	b     strings.Builder
	crlf  bool
	plain bool // canonical layout
}

func (w *poWriter) eol() {
	if w.crlf {
		w.b.WriteByte('\r')
	}
	w.b.WriteByte('\n')
}

func (w *poWriter) line(s string) {
	if !w.plain {
		switch w.r.Intn(12) {
		case 0:
			w.b.WriteString("  ")
		case 1:
			w.b.WriteString("\t")
		}
	}
	w.b.WriteString(s)
	if !w.plain {
		switch w.r.Intn(12) {
		case 0:
			w.b.WriteString("  ")
		case 1:
			w.b.WriteString("\t ")
		}
	}
	w.eol()
}

// comments of the kinds that tools write; the first ones stand between entries only
var obsolete = []string{"#~ msgid \"obsolete\"", "#~ msgstr \"gone\"", "#~ msgctxt \"menu\"", "#~ msgid_plural \"obsoletes\"", "#~ msgstr[0] \"gone\"", "#~ \"continued\"", "#~| msgid \"older\"", "#| msgid \"previous\"", "#| msgctxt \"menu\"", "#| \"continued\"", "#, c-format", "#, fuzzy", "#", "#~", "#~ #: old.go:1", "#~msgid \"obsolete\""}
var flags = []string{"#, fuzzy", "#,fuzzy", "#, c-format", "#, no-wrap", "#, fuzzy, c-format, no-wrap", "#, range: 0..20", "#, no-c-format, go-format", "#, fuzzy no-wrap", "#= sticky", "#- removed", "#! odd", "#@ domain", "#\"quoted\"", "#msgid \"none\"", "#;", "##", "# fuzzy", "#. fuzzy", "# :", "# #: none.go:1", "#.: none.go:1", "#,: none.go:1", "#|: none.go:1"}

// junk writes comments and blank lines which are allowed anywhere.
func (w *poWriter) junk(between bool) {
	if w.plain {
		return
	}
	for w.r.Intn(4) == 0 {
		switch w.r.Intn(7) {
		case 0, 1:
			w.line("")
		case 2:
			w.line("# translator's \"note\" msgid \"no\"")
		case 3:
			if between {
				w.line(obsolete[w.r.Intn(len(obsolete))])
			}
		case 6:
			w.line(flags[w.r.Intn(len(flags))])
		case 4:
			w.line("#. extracted \\")
		case 5:
			w.line("#")
		}
	}
}

var simpleEsc = map[byte]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, '\\': `\\`, '"': `\"`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`}

// escape writes one piece of a string, with escapes chosen at random.
func (w *poWriter) escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		_, n := utf8.DecodeRuneInString(s[i:])
		must := c == '\n' || c == '"' || c == '\\' || c == 0
		nextDigit := i+n < len(s) && s[i+n] >= '0' && s[i+n] <= '9'
		e, has := simpleEsc[c]
		switch {
		case w.plain && must || has && !w.plain && (must || c == '\r' || c < ' ') && w.r.Intn(8) > 0:
			if e == "" {
				e = fmt.Sprintf("\\%03o", c)
			}
			b.WriteString(e)
		case must || !w.plain && (w.r.Intn(60) == 0 || c < ' ' && w.r.Intn(2) == 0):
			for j := i; j < i+n; j++ {
				switch k := w.r.Intn(3); {
				case k == 0 && !nextDigit && j == i+n-1:
					fmt.Fprintf(&b, []string{"\\%o", "\\%02o"}[w.r.Intn(2)], s[j])
				case k == 1 && !hexFollows(s, j+1) && s[j] >= 0x10:
					fmt.Fprintf(&b, []string{"\\x%02x", "\\x%02X"}[w.r.Intn(2)], s[j])
				default:
					fmt.Fprintf(&b, "\\%03o", s[j])
				}
			}
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

func hexFollows(s string, i int) bool {
	if i >= len(s) {
		return false
	}
	return strings.IndexByte("0123456789abcdefABCDEF", s[i]) >= 0 || s[i] >= 0x80
}

// str writes a keyword and its string, possibly over several lines.
func (w *poWriter) str(kw, s string) {
	sep := " "
	if !w.plain {
		sep = []string{" ", " ", " ", "  ", "\t", ""}[w.r.Intn(6)]
	}
	var parts []string
	rest := s
	if w.plain {
		parts = []string{s}
	} else {
		switch w.r.Intn(4) {
		case 0, 1:
			parts = []string{s}
		case 2: // as the GNU tools write it: empty first line, then line by line
			parts = append([]string{""}, strings.SplitAfter(s, "\n")...)
		case 3: // anywhere between characters
			for len(rest) > 0 && w.r.Intn(6) > 0 {
				k := 1 + w.r.Intn(len(rest))
				for k < len(rest) && !utf8.RuneStart(rest[k]) {
					k++
				}
				parts = append(parts, rest[:k])
				rest = rest[k:]
				if w.r.Intn(8) == 0 {
					parts = append(parts, "")
				}
			}
			parts = append(parts, rest)
		}
	}
	w.line(kw + sep + `"` + w.escape(parts[0]) + `"`)
	for _, p := range parts[1:] {
		w.junkIn()
		w.line(`"` + w.escape(p) + `"`)
	}
}

func (w *poWriter) junkIn() {
	if !w.plain && w.r.Intn(15) == 0 {
		w.line([]string{"", "# inside", "#", "#, fuzzy", "#, c-format", "#. extracted", "#| msgid \"previous\"", "#~ msgid \"obsolete\"", "#~ \"more\""}[w.r.Intn(9)])
	}
}

func (w *poWriter) entry(e *Entry) {
	w.junk(true)
	// references and other comments of the entry
	refs := e.Refs
	for len(refs) > 0 {
		k := len(refs)
		if !w.plain {
			k = 1 + w.r.Intn(len(refs))
		}
		lead, sep, trail := "#: ", " ", ""
		if !w.plain && w.r.Intn(3) == 0 {
			lead = []string{"#:", "#:  ", "#:\t"}[w.r.Intn(3)]
			sep = []string{" ", "  ", "\t"}[w.r.Intn(3)]
			trail = []string{"", " ", "\t "}[w.r.Intn(3)]
		}
		w.line(lead + strings.Join(refs[:k], sep) + trail)
		refs = refs[k:]
		if !w.plain && w.r.Intn(6) == 0 {
			w.line([]string{"#. comment", "#, c-format", "# x", "#:", "#: "}[w.r.Intn(5)])
		}
	}
	if e.Ctx != "" {
		w.str("msgctxt", e.Ctx)
		w.junkIn()
	} else if !w.plain && w.r.Intn(15) == 0 {
		w.str("msgctxt", "")
	}
	w.str("msgid", e.ID)
	w.junkIn()
	if e.Plural != "" {
		w.str("msgid_plural", e.Plural)
		w.junkIn()
		var ks []int
		for k := range e.Forms {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			w.str(fmt.Sprintf("msgstr[%d]", k), e.Forms[k])
			w.junkIn()
		}
	} else {
		w.str("msgstr", e.Forms[0])
	}
	if w.plain || w.r.Intn(4) > 0 {
		w.line("")
	}
}

// RenderPO writes the catalogue as PO text in a random layout; r == nil gives the canonical one.
func (m *Model) RenderPO(r *rand.Rand) []byte {
	w := &poWriter{r: r, plain: r == nil}
	if r != nil && r.Intn(4) == 0 {
		w.crlf = true
	}
	for _, c := range m.Comments {
		w.b.WriteString(c)
		w.eol()
	}
	es := m.sorted()
	headerAt := 0
	if r != nil {
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		if r.Intn(6) == 0 {
			headerAt = r.Intn(len(es) + 1)
		}
		if len(m.Comments) == 0 {
			w.junk(false)
		}
	}
	for i := 0; i <= len(es); i++ {
		if i == headerAt && m.HasHeader {
			if i > 0 {
				w.junk(true)
			}
			if len(m.HdrRefs) > 0 {
				w.line("#: " + strings.Join(m.HdrRefs, " "))
			}
			w.str("msgid", "")
			w.str("msgstr", m.headerText())
			w.line("")
		}
		if i < len(es) {
			w.entry(es[i])
		}
	}
	if r != nil {
		w.junk(true)
	}
	s := w.b.String()
	if r != nil && r.Intn(3) == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return []byte(s)
}

// ------------------------------------------------------------- MO

// RenderMO writes the catalogue as a MO file in a random legal layout; r == nil gives a plain one.
// Entries without any translation are left out when skip says so.
func (m *Model) RenderMO(r *rand.Rand, skip func(e *Entry) bool) []byte {
	type kv struct{ k, v string }
	var items []kv
	if m.HasHeader {
		items = append(items, kv{"", m.headerText()})
	}
	for _, e := range m.sorted() {
		if skip != nil && skip(e) {
			continue
		}
		k := e.ID
		if e.Ctx != "" {
			k = e.Ctx + "\x04" + e.ID
		}
		if e.Ctx == "" && r != nil && r.Intn(15) == 0 {
			k = "\x04" + e.ID // an empty context is none
		}
		v := e.Forms[0]
		if e.Plural != "" {
			k += "\x00" + e.Plural
			var fs []string
			for i := 0; i < len(e.Forms); i++ {
				fs = append(fs, e.Forms[i])
			}
			v = strings.Join(fs, "\x00")
		}
		items = append(items, kv{k, v})
	}
	sort.Slice(items, func(i, j int) bool { return items[i].k < items[j].k })
	n := len(items)

	var bo binary.ByteOrder = binary.LittleEndian
	magic := uint32(0x950412de)
	rev := uint32(0)
	hashSize := 0
	pad := func() int { return 0 }
	order := []int{0, 1, 2, 3, 4} // ids table, strings table, hash, id strings, translation strings
	share := false
	if r != nil {
		if r.Intn(2) == 0 {
			bo = binary.BigEndian
		}
		rev = []uint32{0, 0, 1, 1 << 16, 1<<16 | 1}[r.Intn(5)]
		if r.Intn(2) == 0 {
			hashSize = n*4/3 + 3
		}
		if r.Intn(2) == 0 {
			pad = func() int { return r.Intn(9) }
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		share = r.Intn(3) == 0
	}
	// strings
	type pos struct{ off, ln uint32 }
	ids, strs := make([]pos, n), make([]pos, n)
	hdr := 28
	if rev&0xffff == 1 {
		hdr = 48 // fields about system dependent strings, of which there are none
	}
	buf := make([]byte, hdr)
	type placed struct {
		s   string
		off int
	}
	var all []placed
	padN := func(align bool) {
		for i := pad(); i > 0; i-- {
			buf = append(buf, byte(0xA5))
		}
		if align {
			for len(buf)%4 != 0 {
				buf = append(buf, 0)
			}
		}
	}
	place := func(s string) pos {
		if share {
			for i, p := range all {
				if i > 500 {
					break
				}
				// at the end, or in front of a NUL that separates forms
				if j := strings.Index(p.s+"\x00", s+"\x00"); j >= 0 {
					return pos{uint32(p.off + j), uint32(len(s))}
				}
			}
		}
		padN(false)
		o := len(buf)
		all = append(all, placed{s, o})
		buf = append(buf, s...)
		buf = append(buf, 0)
		return pos{uint32(o), uint32(len(s))}
	}
	var idsOff, strsOff, hashOff int
	perm := func() []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		if r != nil && r.Intn(3) == 0 {
			r.Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
		}
		if share && r.Intn(2) == 0 {
			// long ones first, for the others to be shared with them
			sort.SliceStable(p, func(i, j int) bool {
				a, b := items[p[i]], items[p[j]]
				return len(a.k)+len(a.v) > len(b.k)+len(b.v)
			})
		}
		return p
	}
	for _, o := range order {
		switch o {
		case 0:
			padN(true)
			idsOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		case 1:
			padN(true)
			strsOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		case 2:
			padN(true)
			hashOff = len(buf)
			buf = append(buf, make([]byte, 4*hashSize)...)
		case 3:
			for _, i := range perm() {
				ids[i] = place(items[i].k)
			}
		case 4:
			for _, i := range perm() {
				strs[i] = place(items[i].v)
			}
		}
	}
	padN(false)
	put := func(o int, v uint32) { bo.PutUint32(buf[o:], v) }
	for i := 0; i < n; i++ {
		put(idsOff+8*i, ids[i].ln)
		put(idsOff+8*i+4, ids[i].off)
		put(strsOff+8*i, strs[i].ln)
		put(strsOff+8*i+4, strs[i].off)
	}
	for i := 0; i < n && hashSize > 2; i++ {
		h := hashpjw(items[i].k)
		j, inc := int(h%uint32(hashSize)), int(1+h%uint32(hashSize-2))
		for bo.Uint32(buf[hashOff+4*j:]) != 0 {
			if j >= hashSize-inc {
				j -= hashSize - inc
			} else {
				j += inc
			}
			if inc == 0 {
				inc = 1
			}
			// an imperfect size may cycle: step by one then
			if r.Intn(50) == 0 {
				inc = 1
			}
		}
		put(hashOff+4*j, uint32(i+1))
	}
	put(0, magic)
	put(4, rev)
	put(8, uint32(n))
	put(12, uint32(idsOff))
	put(16, uint32(strsOff))
	put(20, uint32(hashSize))
	put(24, uint32(hashOff))
	return buf
}

func hashpjw(s string) uint32 {
	var h uint32
	for i := 0; i < len(s); i++ {
		h = h<<4 + uint32(s[i])
		if g := h & 0xf0000000; g != 0 {
			h ^= g >> 24
			h ^= g
		}
	}
	return h
}

func sortU32(a []uint32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }
