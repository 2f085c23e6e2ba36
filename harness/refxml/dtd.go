package refxml

import (
	"strings"
	"unicode/utf8"
)

// doctype reads a DOCTYPE in a strict sub-grammar of the specification. Declarations
// outside the sub-grammar make the document unclaimed; an end of input inside it is a
// premature end.
func (p *parser) doctype() {
	s := p.i
	p.i += 2
	p.lit("DOCTYPE", s)
	o := p.i
	p.r.HasDTD = true
	p.ents = true
	bad := func() { p.peekDtd(); p.unclaimed("DTD outside the reference grammar") }
	need := func() byte {
		if !p.more() {
			p.eof(false)
		}
		return p.d[p.i]
	}
	sp := func() {
		if !isSpace(rune(need())) {
			bad()
		}
		p.ws()
	}
	lit := func(w string) {
		for k := 0; k < len(w); k++ {
			if need() != w[k] {
				bad()
			}
			p.i++
		}
	}
	nm := func() {
		r := p.dtdPeek()
		if !IsNameStart(r) {
			bad()
		}
		colons, last := 0, rune(':')
		for {
			r := p.dtdPeek()
			if !IsName(r) {
				break
			}
			if last == ':' && (r == ':' || !IsNameStart(r)) {
				colons = 2
			}
			if r == ':' {
				colons++
			}
			last = r
			p.next()
		}
		if last == ':' || colons > 1 {
			p.nsTaint("colons in a DTD")
		}
	}
	quoted := func(ent bool) {
		q := need()
		if q != '"' && q != '\'' {
			bad()
		}
		p.i++
		for {
			at := p.i
			r := p.dtdPeek()
			if r == rune(q) {
				p.next()
				return
			}
			if ent && r == '%' {
				bad()
			}
			if ent && r == '&' {
				// well-formed references are fine, others are not judged
				j := strings.IndexByte(string(p.d[p.i:]), ';')
				if j < 0 {
					bad()
				}
				ref := p.d[p.i : p.i+j+1]
				if !isRef(ref) {
					bad()
				}
				p.i += len(ref)
				continue
			}
			p.char(r, at, at)
			p.next()
		}
	}
	extID := func() {
		if need() == 'S' {
			lit("SYSTEM")
			sp()
			quoted(false)
			return
		}
		lit("PUBLIC")
		sp()
		// public identifiers have a small alphabet
		q := need()
		if q != '"' && q != '\'' {
			bad()
		}
		p.i++
		for need() != q {
			c := p.d[p.i]
			if !strings.ContainsRune(" \r\nabcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-'()+,./:=?;!*#@$_%", rune(c)) {
				bad()
			}
			p.i++
		}
		p.i++
		sp()
		quoted(false)
	}

	sp()
	nm()
	need()
	n := p.ws()
	if c := need(); c != '[' && c != '>' {
		if n == 0 {
			bad()
		}
		extID()
		p.ws()
	}
	if need() == '[' {
		p.i++
		for {
			p.ws()
			if need() == ']' {
				p.i++
				break
			}
			if need() != '<' {
				bad()
			}
			ds := p.i
			p.i++
			switch need() {
			case '?':
				p.i = ds
				mark := len(p.r.Toks)
				p.dtdPi()
				p.r.Toks = p.r.Toks[:mark]
				continue
			case '!':
			default:
				bad()
			}
			p.i++
			if need() == '-' {
				p.i = ds
				p.dtdComment()
				continue
			}
			switch need() {
			case 'E':
				p.i++
				if need() == 'L' {
					lit("LEMENT")
					sp()
					nm()
					sp()
					switch need() {
					case 'E':
						lit("EMPTY")
					case 'A':
						lit("ANY")
					case '(':
						p.dtdModel(need, nm, lit, bad, 0)
					default:
						bad()
					}
				} else {
					lit("NTITY")
					sp()
					if need() == '%' {
						p.i++
						sp()
					}
					nm()
					sp()
					if c := need(); c == '"' || c == '\'' {
						quoted(true)
					} else {
						extID()
					}
				}
			case 'A':
				lit("ATTLIST")
				sp()
				nm()
				sp()
				nm()
				sp()
				switch need() {
				case 'C':
					lit("CDATA")
				default:
					lit("NMTOKEN")
				}
				sp()
				if need() == '#' {
					p.i++
					if need() == 'R' {
						lit("REQUIRED")
					} else {
						lit("IMPLIED")
					}
				} else {
					bad()
				}
			case 'N':
				lit("NOTATION")
				sp()
				nm()
				sp()
				extID()
			default:
				bad()
			}
			need()
			p.ws()
			if need() != '>' {
				bad()
			}
			p.i++
		}
		p.ws()
	}
	if need() != '>' {
		bad()
	}
	n = p.i - o
	p.i++
	if n > MaxToken {
		p.limit(s, p.i, "DTD too long")
	}
	p.tok(Dtd, o, n, -1)
}

func (p *parser) dtdPeek() rune {
	r, _ := p.peek()
	return r
}

// peekDtd lets encoding trouble win over "unclaimed".
func (p *parser) peekDtd() {
	if p.more() {
		p.peek()
	}
}

func (p *parser) dtdModel(need func() byte, nm func(), lit func(string), bad func(), depth int) {
	if depth > 8 {
		bad()
	}
	p.i++ // (
	need()
	p.ws()
	if need() == '#' {
		lit("#PCDATA")
		need()
		p.ws()
		if need() != ')' {
			bad()
		}
		p.i++
		return
	}
	sep := byte(0)
	for {
		if need() == '(' {
			p.dtdModel(need, nm, lit, bad, depth+1)
		} else {
			nm()
		}
		if c := need(); c == '?' || c == '*' || c == '+' {
			p.i++
			need()
		}
		p.ws()
		c := need()
		if c == ')' {
			p.i++
			if c := need(); c == '?' || c == '*' || c == '+' {
				p.i++
			}
			return
		}
		if (c != ',' && c != '|') || (sep != 0 && sep != c) {
			bad()
		}
		sep = c
		p.i++
		need()
		p.ws()
	}
}

// dtdComment and dtdPi read these constructs with errors in them left unclaimed.
func (p *parser) dtdComment() {
	p.i += 2
	for k := 0; k < 2; k++ {
		if !p.more() {
			p.eof(false)
		}
		if p.d[p.i] != '-' {
			p.peek()
			p.unclaimed("DTD outside the reference grammar")
		}
		p.i++
	}
	for {
		at := p.i
		r := p.next()
		if r == '-' {
			if !p.more() {
				p.eof(false)
			}
			if p.d[p.i] == '-' {
				p.i++
				if !p.more() {
					p.eof(false)
				}
				if p.d[p.i] != '>' {
					p.peek()
					p.unclaimed("DTD outside the reference grammar")
				}
				p.i++
				return
			}
			continue
		}
		p.char(r, at, at)
	}
}

func (p *parser) dtdPi() {
	p.i += 2
	if !p.more() {
		p.eof(false)
	}
	r, _ := p.peek()
	if !IsNameStart(r) {
		p.unclaimed("DTD outside the reference grammar")
	}
	o := p.i
	for {
		r, w := p.peek()
		if !IsName(r) {
			break
		}
		if r == ':' {
			p.nsTaint("colon in a PI target")
		}
		p.i += w
	}
	if strings.EqualFold(string(p.d[o:p.i]), "xml") {
		p.unclaimed("DTD outside the reference grammar")
	}
	if c := p.d[p.i]; c != '?' && !isSpace(rune(c)) || c == '?' && p.i+1 < len(p.d) && p.d[p.i+1] != '>' {
		p.unclaimed("DTD outside the reference grammar")
	}
	for {
		at := p.i
		r := p.next()
		if r == '?' {
			if !p.more() {
				p.eof(false)
			}
			if p.d[p.i] == '>' {
				p.i++
				return
			}
			continue
		}
		p.char(r, at, at)
	}
}

// isRef tells whether s is one well-formed reference, of ASCII characters.
func isRef(s []byte) bool {
	if len(s) < 3 {
		return false
	}
	b := s[1 : len(s)-1]
	if b[0] == '#' {
		v, ok := Resolve(s)
		r, _ := utf8.DecodeRuneInString(v)
		return ok && (r == '\t' || r == '\n' || r == '\r' || in(r, 0x20, 0xD7FF, 0xE000, 0xFFFC, 0x10000, 0x10FFFF))
	}
	for i, c := range b {
		if c >= 0x80 || i == 0 && !IsNameStart(rune(c)) || !IsName(rune(c)) {
			return false
		}
	}
	return true
}
