package main

import (
	"fmt"
	"strings"
)

// POItem is one message of a PO text as an independent, strict reader sees it.
type POItem struct {
	Ctx, ID, Plural string
	HasCtx, HasPl   bool
	Forms           map[int]string
	Order           []int // plural indexes in file order
	Refs            []string
	Comments        []string
}

// strictPO reads PO text and refuses everything that is not plain PO.
func strictPO(b []byte) ([]*POItem, error) { return readPO(b, false) }

// readPO may let empty contexts pass.
func readPO(b []byte, emptyCtx bool) ([]*POItem, error) {
	var out []*POItem
	var cur *POItem
	field := "" // what a continuation line belongs to
	idx := 0
	var comments, refs []string
	seen := map[Key]bool{}
	finish := func() error {
		if cur == nil {
			return nil
		}
		if len(cur.Forms) == 0 {
			return fmt.Errorf("message %q without msgstr", cur.ID)
		}
		if cur.HasCtx && cur.Ctx == "" && !emptyCtx {
			return fmt.Errorf("message %q with an empty context", cur.ID)
		}
		if cur.HasCtx && cur.Ctx == "" {
			cur.Ctx = "\x00" // not the same as none
		}
		k := Key{cur.Ctx, cur.ID}
		if seen[k] {
			return fmt.Errorf("message %q given twice", k)
		}
		seen[k] = true
		out = append(out, cur)
		cur = nil
		return nil
	}
	for ln, l := range strings.Split(string(b), "\n") {
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("line %d %q: %s", ln+1, l, fmt.Sprintf(f, a...))
		}
		if strings.HasSuffix(l, "\r") {
			l = l[:len(l)-1]
		}
		if l == "" {
			continue
		}
		if l[0] == '#' {
			if cur != nil && field != "msgstr" && field != "" {
				return nil, bad("comment inside a message")
			}
			comments = append(comments, l)
			if strings.HasPrefix(l, "#:") {
				refs = append(refs, strings.Fields(l[2:])...)
			}
			continue
		}
		if l[0] == '"' {
			s, err := cString(l)
			if err != nil {
				return nil, bad("%v", err)
			}
			if cur == nil {
				return nil, bad("string without a keyword")
			}
			switch field {
			case "msgctxt":
				cur.Ctx += s
			case "msgid":
				cur.ID += s
			case "msgid_plural":
				cur.Plural += s
			case "msgstr":
				cur.Forms[idx] += s
			default:
				return nil, bad("string without a keyword")
			}
			continue
		}
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			return nil, bad("not a PO line")
		}
		kw, rest := l[:i], strings.TrimLeft(l[i:], " ")
		s, err := cString(rest)
		if err != nil {
			return nil, bad("%v", err)
		}
		start := func() error {
			if err := finish(); err != nil {
				return err
			}
			cur = &POItem{Forms: map[int]string{}, Refs: refs, Comments: comments}
			comments, refs = nil, nil
			return nil
		}
		switch {
		case kw == "msgctxt":
			if field != "" && field != "msgstr" {
				return nil, bad("in the wrong place")
			}
			if err := start(); err != nil {
				return nil, err
			}
			cur.Ctx, cur.HasCtx = s, true
			field = kw
		case kw == "msgid":
			if field != "msgctxt" {
				if field != "" && field != "msgstr" {
					return nil, bad("in the wrong place")
				}
				if err := start(); err != nil {
					return nil, err
				}
			}
			cur.ID = s
			field = kw
		case kw == "msgid_plural":
			if field != "msgid" {
				return nil, bad("in the wrong place")
			}
			cur.Plural, cur.HasPl = s, true
			field = kw
		case kw == "msgstr":
			if field != "msgid" {
				return nil, bad("in the wrong place")
			}
			idx = 0
			cur.Forms[0] = s
			field = kw
		case strings.HasPrefix(kw, "msgstr["):
			if (field != "msgid_plural" && field != "msgstr") || cur == nil || !cur.HasPl {
				return nil, bad("in the wrong place")
			}
			var j int
			if n, _ := fmt.Sscanf(kw, "msgstr[%d]", &j); n != 1 || kw != fmt.Sprintf("msgstr[%d]", j) {
				return nil, bad("bad index")
			}
			if _, dup := cur.Forms[j]; dup {
				return nil, bad("index given twice")
			}
			idx = j
			cur.Forms[j] = s
			cur.Order = append(cur.Order, j)
			field = "msgstr"
		default:
			return nil, bad("unknown keyword")
		}
	}
	if err := finish(); err != nil {
		return nil, err
	}
	return out, nil
}

// cString decodes one quoted string of a PO file.
func cString(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' {
		return "", fmt.Errorf("no string")
	}
	var b strings.Builder
	i := 1
	for {
		if i >= len(s) {
			return "", fmt.Errorf("string without an end")
		}
		c := s[i]
		i++
		if c == '"' {
			break
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		if i >= len(s) {
			return "", fmt.Errorf("string without an end")
		}
		c = s[i]
		i++
		if j := strings.IndexByte(`abfnrtv\"?'`, c); j >= 0 {
			b.WriteByte("\a\b\f\n\r\t\v\\\"?'"[j])
			continue
		}
		switch {
		case c >= '0' && c <= '7':
			v := int(c - '0')
			for k := 0; k < 2 && i < len(s) && s[i] >= '0' && s[i] <= '7'; k++ {
				v = v*8 + int(s[i]-'0')
				i++
			}
			b.WriteByte(byte(v))
		case c == 'x':
			v, n := 0, 0
			for i < len(s) {
				d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
				if d < 0 {
					break
				}
				v, n = v*16+d, n+1
				i++
			}
			if n == 0 {
				return "", fmt.Errorf("bad hexadecimal escape")
			}
			b.WriteByte(byte(v))
		default:
			return "", fmt.Errorf("unknown escape \\%c", c)
		}
	}
	if strings.TrimSpace(s[i:]) != "" {
		return "", fmt.Errorf("text after the string")
	}
	return b.String(), nil
}

// items turns what the strict reader found into entries; the header apart.
func poEntries(items []*POItem) (map[Key]*Entry, *POItem) {
	out := map[Key]*Entry{}
	var head *POItem
	for _, it := range items {
		if it.ID == "" && !it.HasCtx {
			head = it
			continue
		}
		out[Key{it.Ctx, it.ID}] = &Entry{Ctx: it.Ctx, ID: it.ID, Plural: it.Plural, Forms: it.Forms, Refs: it.Refs}
	}
	return out, head
}
