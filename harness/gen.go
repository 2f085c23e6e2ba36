package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// ---- small draw helpers (every random choice goes through rapid)

var uint64s = rapid.Uint64()

// n draws an integer of [lo,hi], about uniformly (rapid's own ranges favour small
// values strongly, which would starve rare constructs); it shrinks to lo.
func n(t *rapid.T, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	x := uint64s.Draw(t, "n")
	if x == 0 {
		return lo
	}
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	return lo + int(x%uint64(hi-lo+1))
}

// chance is true with probability about num/den; it shrinks to false.
func chance(t *rapid.T, num, den int) bool { return n(t, 0, den-1) >= den-num }

func pick[T any](t *rapid.T, xs ...T) T { return xs[n(t, 0, len(xs)-1)] }

// weighted draws an index by weight; it shrinks to the first.
func weighted(t *rapid.T, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	k := n(t, 0, sum-1)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return len(ws) - 1
}

// DocCfg says what kind of document to make.
type DocCfg struct {
	NS       bool // namespace-well-formed
	Ascii    bool // ASCII characters only
	NoDTD    bool
	NoDecl   bool // no XML declaration or byte-order mark
	NoCRLF   bool // no CR LF pair
	NoCR     bool // no CR at all
	Refs     bool // more references
	Budget   int  // rough number of nodes
	MaxDepth int
	Attrs    int // upper bound of ordinary attributes per element (default 4)
	TreeOnly bool
}

type scopeEntry struct{ prefix, uri string }

type docGen struct {
	t      *rapid.T
	b      bytes.Buffer
	cfg    DocCfg
	budget int
	scope  []scopeEntry
	v11    bool
}

// genDoc makes a well-formed document.
func genDoc(t *rapid.T, cfg DocCfg) []byte {
	if cfg.Budget == 0 {
		cfg.Budget = pick(t, 4, 8, 15, 15, 30, 60)
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = pick(t, 3, 5, 5, 8, 40)
	}
	if cfg.Attrs == 0 {
		cfg.Attrs = 4
	}
	g := &docGen{t: t, cfg: cfg, budget: cfg.Budget}
	if !cfg.Ascii && chance(t, 1, 12) {
		g.cfg.Ascii = true
	}
	g.document()
	return g.b.Bytes()
}

func (g *docGen) w(s string) { g.b.WriteString(s) }

func (g *docGen) document() {
	t := g.t
	bom := false
	if !g.cfg.NoDecl {
		if chance(t, 1, 10) {
			g.w("\xEF\xBB\xBF")
			bom = true
		}
		if chance(t, 1, 3) {
			g.xmlDecl(bom)
		}
	}
	g.misc()
	if !g.cfg.NoDTD && !g.cfg.TreeOnly && chance(t, 1, 6) {
		g.doctype()
		g.misc()
	}
	g.element(0)
	g.misc()
}

func (g *docGen) xmlDecl(bom bool) {
	t := g.t
	q := func(v string) string {
		if chance(t, 1, 2) {
			return "'" + v + "'"
		}
		return `"` + v + `"`
	}
	eq := func() string { return g.s0() + "=" + g.s0() }
	v := "1.0"
	if chance(t, 1, 6) {
		v = "1.1"
		g.v11 = true
	}
	g.w("<?xml" + g.s1() + "version" + eq() + q(v))
	if chance(t, 1, 2) {
		enc := pick(t, "UTF-8", "utf-8")
		if g.cfg.Ascii && !bom && chance(t, 2, 3) {
			enc = pick(t, "ASCII", "ascii", "US-ASCII", "us-ascii")
		}
		g.w(g.s1() + "encoding" + eq() + q(enc))
	}
	if chance(t, 1, 3) {
		g.w(g.s1() + "standalone" + eq() + q(pick(t, "yes", "no")))
	}
	g.w(g.s0() + "?>")
}

// s0 is optional space, s1 required space.
func (g *docGen) s0() string {
	if !chance(g.t, 1, 6) {
		return ""
	}
	return g.s1()
}

func (g *docGen) s1() string {
	k := n(g.t, 0, 19)
	switch {
	case k < 14:
		return " "
	case k < 16:
		return "\n"
	case k == 16:
		return "\t"
	case k == 17:
		if g.cfg.NoCR || g.cfg.NoCRLF {
			return "\n"
		}
		return "\r\n"
	case k == 18:
		if g.cfg.NoCR {
			return " \n"
		}
		return "\r "
	default:
		return " \n\t  "
	}
}

func (g *docGen) misc() {
	for chance(g.t, 1, 5) {
		if g.cfg.TreeOnly {
			g.w(g.s1())
			continue
		}
		switch n(g.t, 0, 3) {
		case 0, 1:
			g.w(g.s1())
		case 2:
			g.comment()
		case 3:
			g.pi()
		}
	}
}

var asciiNames = []string{"a", "b", "c", "a1", "x", "xm", "ab", "abc", "_", "a-b", "a.b", "xmlfoo", "xmlabcd", "xmln",
	"XML", "Ab", "y_9", "xmlnsx", "x-", "version", "br"}
var wideNames = []string{"é", "名前", "𐀀x", "aé", "öä", "a·", "ñb", "Ω", "aͯ", "x‿y", "豈", "\U000EFFFF"}

func (g *docGen) ncname() string {
	t := g.t
	if !g.cfg.Ascii && chance(t, 1, 8) {
		return pick(t, wideNames...)
	}
	if chance(t, 1, 30) {
		return pick(t, "a", "xml", "_z") + strings.Repeat("n", n(t, 1, 60))
	}
	return asciiNames[n(t, 0, len(asciiNames)-1)]
}

var prefixes = []string{"p", "q", "r", "xmlp", "é", "xmlabcde", "xmlnsabcde", "x", "pp"}

// name of an element; without namespaces any prefix goes.
func (g *docGen) elemName() string {
	t := g.t
	if !chance(t, 1, 4) {
		return g.ncname()
	}
	if g.cfg.NS {
		if p := g.usablePrefix(); p != "" {
			return p + ":" + g.ncname()
		}
		if chance(t, 1, 6) {
			return "xml:" + g.ncname()
		}
		return g.ncname()
	}
	return g.anyPrefix() + ":" + g.ncname()
}

func (g *docGen) anyPrefix() string {
	p := pick(g.t, prefixes...)
	if g.cfg.Ascii && p == "é" {
		p = "p"
	}
	return p
}

func (g *docGen) usablePrefix() string {
	var ps []string
	for _, s := range g.scope {
		if s.prefix != "" {
			ps = append(ps, s.prefix)
		}
	}
	if len(ps) == 0 {
		return ""
	}
	return ps[n(g.t, 0, len(ps)-1)]
}

func (g *docGen) uriOf(prefix string) string {
	for i := len(g.scope) - 1; i >= 0; i-- {
		if g.scope[i].prefix == prefix {
			return g.scope[i].uri
		}
	}
	return ""
}

// namespace names as written; several are the same after resolving references.
var uris = []string{"u", "v", "&#117;", "u&amp;v", "u&#38;v", "&#x75;", "http://e.org/", "http://e.org/a", "urn:x",
	"http://www.w3.org/XML/1998/namespac", "http://www.w3.org/XML/1998/namespaces", "http://www.w3.org/2000/xmlns",
	"http://www.w3.org/2000/xmlns//", "http://www.w3.org/1999/xhtml-and-more-of-it", "u&lt;", "u&apos;", "&quot;u",
	"http://www.w3.org/XML/1998/namespacE", "https://www.w3.org/XML/1998/namespace"}

type genAttr struct{ name, val string }

// element writes one element; prefix choice needs the declarations first, so the
// attributes are drawn before the name is written.
func (g *docGen) element(depth int) {
	t := g.t
	g.budget--
	mark := len(g.scope)
	used := map[string]bool{}
	var attrs []genAttr
	if !g.cfg.TreeOnly && chance(t, 1, 3) {
		for k := n(t, 1, 3); k > 0; k-- {
			if g.cfg.NS && !chance(t, 1, 2) {
				continue
			}
			if !g.cfg.NS && !chance(t, 1, 6) {
				continue
			}
			pre := ""
			if chance(t, 3, 4) {
				pre = g.anyPrefix()
			}
			nm := "xmlns"
			if pre != "" {
				nm = "xmlns:" + pre
			}
			uri := pick(t, uris...)
			if pre == "" && chance(t, 1, 4) {
				uri = ""
			}
			if chance(t, 1, 20) {
				nm, pre, uri = "xmlns:xml", "xml", refxml.XMLURI
			}
			if used[nm] {
				continue
			}
			used[nm] = true
			attrs = append(attrs, genAttr{nm, g.quote(uri)})
			if pre != "xml" {
				r, _ := refxml.Resolve([]byte(uri))
				g.scope = append(g.scope, scopeEntry{pre, r})
			}
		}
	}
	name := g.elemName()
	if !g.cfg.TreeOnly && chance(t, 1, 2) || g.cfg.Attrs > 4 {
		expanded := map[string]bool{}
		lim := g.cfg.Attrs
		if lim > 4 {
			lim = pick(t, 2, 4, lim)
		}
		for k := n(t, 0, lim); k > 0; k-- {
			var nm string
			if chance(t, 1, 4) {
				if g.cfg.NS {
					p := g.usablePrefix()
					if p == "" {
						p = "xml"
					}
					nm = p + ":" + g.ncname()
				} else {
					nm = g.anyPrefix() + ":" + g.ncname()
				}
			} else {
				nm = g.ncname()
				if lim > 4 {
					nm += fmt.Sprint(k)
				}
			}
			if used[nm] || (!g.cfg.NS && strings.HasPrefix(nm, "xmlns:")) {
				continue
			}
			if g.cfg.NS {
				if i := strings.IndexByte(nm, ':'); i > 0 {
					x := g.uriOf(nm[:i]) + " " + nm[i:]
					if nm[:i] == "xml" {
						x = "xml " + nm[i:]
					}
					if expanded[x] {
						continue
					}
					expanded[x] = true
				}
			}
			used[nm] = true
			attrs = append(attrs, genAttr{nm, g.attrValue()})
		}
	}
	// declarations may stand anywhere among the attributes
	if len(attrs) > 1 && chance(t, 1, 3) {
		k := n(t, 0, len(attrs)-1)
		attrs = append(append([]genAttr{}, attrs[k:]...), attrs[:k]...)
	}
	g.w("<" + name)
	for _, a := range attrs {
		g.w(g.s1() + a.name + g.s0() + "=" + g.s0() + a.val)
	}
	g.w(g.s0())
	if (depth > 0 && chance(t, 1, 5)) || (depth == 0 && chance(t, 1, 20)) {
		g.w("/>")
		g.scope = g.scope[:mark]
		return
	}
	g.w(">")
	g.content(depth)
	g.w("</" + name + g.s0() + ">")
	g.scope = g.scope[:mark]
}

func (g *docGen) content(depth int) {
	t := g.t
	for g.budget > 0 && (chance(t, 4, 5) || (depth == 0 && chance(t, 1, 2))) {
		k := weighted(t, 22, 50, 6, 6, 6, 10)
		if g.cfg.TreeOnly && k >= 2 && k <= 4 {
			k = 1
		}
		switch k {
		case 0:
			g.budget--
			g.text()
		case 1:
			if depth+1 < g.cfg.MaxDepth {
				g.element(depth + 1)
			} else {
				g.budget--
				g.text()
			}
		case 2:
			g.budget--
			g.comment()
		case 3:
			g.budget--
			g.pi()
		case 4:
			g.budget--
			g.cdata()
		case 5:
			g.budget--
			g.w(g.s1())
		}
	}
}

var asciiBits = []string{"a", "hello", "]", "]]", " ", "\n", ">", "-", "--", "?", "?>", "=", "\"", "'", "/", "x y", "\t", "1",
	"]>", "#", ";", "%", "~", "\x7f"}
var wideBits = []string{"é", "日本", "𐀀", "\u0085", "\u2028", "\uD7FF", "\uE000", "\uFFFD", "\U0010FFFF", "\u00A0", "ß"}
var refBits = []string{"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#x3c;", "&#38;", "&#x10FFFF;",
	"&#233;", "&#xE9;", "&#x4E2D;", "&#10;", "&#13;", "&#9;", "&#xD7FF;", "&#xe000;", "&#0000065;", "&#x000041;", "&#x1F600;",
	"&#65533;", "&#128;", "&#xff;", "&#256;"}

// bits draws pieces of character data.
func (g *docGen) bits(max int) []string {
	t := g.t
	var out []string
	for k := n(t, 1, max); k > 0; k-- {
		refw := 3
		if g.cfg.Refs {
			refw = 20
		}
		switch weighted(t, 12, 4, refw, 1) {
		case 0:
			out = append(out, pick(t, asciiBits...))
		case 1:
			if g.cfg.Ascii {
				out = append(out, "abc")
			} else if chance(t, 1, 4) {
				out = append(out, string(g.wideRune()))
			} else {
				b := pick(t, wideBits...)
				if g.v11 && (b == "\u0085" || b == "\u2028") {
					b = "é"
				}
				out = append(out, b)
			}
		case 2:
			b := pick(t, refBits...)
			if g.v11 && b == "&#128;" {
				b = "&#65;"
			}
			out = append(out, b)
		case 3:
			if g.cfg.NoCR {
				out = append(out, "\n")
			} else if g.cfg.NoCRLF {
				out = append(out, "\rz")
			} else {
				out = append(out, pick(t, "\r", "\r\n", "\r\r\n"))
			}
		}
	}
	if g.v11 {
		for i := range out {
			if out[i] == "\x7f" {
				out[i] = "z"
			}
		}
	}
	return out
}

func (g *docGen) wideRune() rune {
	r := rune(n(g.t, 0xA0, pick(g.t, 0x7FF, 0xFFFD, 0x10FFFD)))
	if r >= 0xD800 && r <= 0xDFFF || r&0xFFFE == 0xFFFE || r == 0x2028 {
		return 'é'
	}
	return r
}

// join glues bits, keeping CR LF pairs out if asked.
func (g *docGen) join(bits []string) string {
	s := strings.Join(bits, "")
	if g.cfg.NoCRLF || g.cfg.NoCR {
		s = strings.ReplaceAll(s, "\r\n", "\n")
	}
	return s
}

func (g *docGen) text() {
	s := g.join(g.bits(6))
	for strings.Contains(s, "]]>") {
		s = strings.ReplaceAll(s, "]]>", "]]&gt;")
	}
	// a text that follows another one must not complete the sequence
	s = strings.TrimLeft(s, ">]")
	g.w(s)
}

func (g *docGen) attrValue() string { return g.quote(g.join(g.bits(3))) }

func (g *docGen) quote(v string) string {
	if chance(g.t, 1, 2) {
		return "'" + strings.ReplaceAll(v, "'", "&apos;") + "'"
	}
	return `"` + strings.ReplaceAll(v, `"`, "&quot;") + `"`
}

func (g *docGen) comment() {
	s := ""
	if chance(g.t, 4, 5) {
		s = g.join(g.bits(4))
	}
	for strings.Contains(s, "--") {
		s = strings.ReplaceAll(s, "--", "- ")
	}
	s = strings.TrimRight(s, "-")
	if chance(g.t, 1, 4) {
		s += "<&>]]"
	}
	g.w("<!--" + s + "-->")
}

func (g *docGen) pi() {
	t := g.t
	nm := g.ncname()
	if strings.EqualFold(nm, "xml") {
		nm = "xml-stylesheet"
	}
	if !g.cfg.NS && chance(t, 1, 12) {
		nm = "p:" + nm
	}
	if chance(t, 1, 3) {
		g.w("<?" + nm + "?>")
		return
	}
	s := g.join(g.bits(4))
	for strings.Contains(s, "?>") {
		s = strings.ReplaceAll(s, "?>", "? ")
	}
	if chance(t, 1, 4) {
		s = "<&" + s + "??"
	}
	g.w("<?" + nm + g.s1() + s + "?>")
}

func (g *docGen) cdata() {
	s := ""
	if chance(g.t, 4, 5) {
		s = g.join(g.bits(4))
	}
	if chance(g.t, 1, 3) {
		s = "<&" + s
	}
	for strings.Contains(s, "]]>") {
		s = strings.ReplaceAll(s, "]]>", "]] ")
	}
	g.w("<![CDATA[" + s + "]]>")
}

func (g *docGen) doctype() {
	t := g.t
	nm := "a"
	if chance(t, 1, 3) {
		nm = g.ncname()
	}
	lit := func(s string) string {
		if chance(t, 1, 2) {
			return "'" + s + "'"
		}
		return `"` + s + `"`
	}
	ext := func() string {
		if chance(t, 1, 2) {
			return "SYSTEM " + lit(pick(t, "a.dtd", "", "x>y", "<z"))
		}
		return "PUBLIC " + lit("-//E//DTD x//EN") + " " + lit(pick(t, "a.dtd", "b"))
	}
	g.w("<!DOCTYPE" + g.s1() + nm)
	if chance(t, 1, 3) {
		g.w(" " + ext())
	}
	g.w(g.s0())
	if chance(t, 1, 2) {
		g.w("[")
		for k := n(t, 0, 4); k > 0; k-- {
			switch n(t, 0, 7) {
			case 0:
				g.w("<!ELEMENT " + g.ncname() + " " + pick(t, "EMPTY", "ANY", "(#PCDATA)", "(a,b?)", "(a|b)*", "((a,b)|c)+", "( a )") + g.s0() + ">")
			case 1:
				g.w("<!ENTITY " + g.ncname() + " " + lit(pick(t, "v", "<b>", "a>b", "<!-- x", "]]>", "", "&#65;", "&#x3c;&amp;", "&lt;b")) + ">")
			case 2:
				g.w("<!ATTLIST " + g.ncname() + " " + g.ncname() + " " + pick(t, "CDATA", "NMTOKEN") + " " + pick(t, "#IMPLIED", "#REQUIRED") + ">")
			case 3:
				g.w("<!NOTATION " + g.ncname() + " " + ext() + ">")
			case 4:
				g.w(pick(t, "<!---->", "<!-- > ' -->", "<!-- <x> \" -->", "<!-- a - b -->", "<!--]]>-->"))
			case 5:
				g.w(pick(t, "<?p?>", "<?p ' > ?>", "<?q <!-- ??>", "<?p x=\"?>"))
			case 6:
				g.w("<!ENTITY % " + g.ncname() + " " + lit("v") + ">")
			case 7:
				g.w(g.s1())
			}
		}
		g.w("]" + g.s0())
	}
	g.w(">")
}

// ---- special shapes

// genShape makes larger regular documents: wide, deep, many attributes, repeated blocks.
func genShape(t *rapid.T, ns bool) []byte {
	var b strings.Builder
	switch n(t, 0, 5) {
	case 5: // tokens of many sizes
		genSized(t, &b)
	case 0: // wide, crossing buffer pages
		k := pick(t, 30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 260, 520, 1030, 2100)
		unit := pick(t, "<a/>", "<a></a>", "<a><b/></a>", "<a>x</a>", "<b><c/><c/></b>", "<a><b><c/></b></a>")
		alt := pick(t, "<a/>", "<d><e/></d>", "x", "<!--c-->")
		every := n(t, 1, 7)
		b.WriteString("<r>")
		for i := 0; i < k; i++ {
			if i%every == 0 {
				b.WriteString(alt)
			}
			b.WriteString(unit)
		}
		b.WriteString("</r>")
	case 1: // deep
		k := pick(t, 4, 5, 6, 10, 31, 64, 100, 253, 254, 255)
		for i := 0; i < k; i++ {
			b.WriteString("<a>")
			if i == k/2 {
				b.WriteString("<x/><y/>")
			}
		}
		b.WriteString("t")
		for i := 0; i < k; i++ {
			b.WriteString("</a>")
			if i == k/3 && i < k-1 {
				b.WriteString("<z/>")
			}
		}
	case 2: // many attributes
		k := pick(t, 10, 100, 255, 256, 257, 258, 300, 520)
		pre := ""
		b.WriteString("<r")
		if chance(t, 1, 2) {
			b.WriteString(" xmlns:p='u'")
			pre = "p:"
		}
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, " %sa%d='%d'", pre, i, i)
		}
		b.WriteString("><b c='1'/></r>")
	case 3: // many namespace declarations, scopes that close
		k := pick(t, 5, 40, 64, 65, 130)
		b.WriteString("<r xmlns:p='u'>")
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "<p:a xmlns:p='v%d' xmlns:q%d='w'><q%d:b p:x='1'/></p:a>", i, i, i)
		}
		b.WriteString("<p:z/></r>")
	case 4: // a generated block, repeated
		in := genDoc(t, DocCfg{NS: ns, NoDTD: true, NoDecl: true, Budget: 12, MaxDepth: 5})
		in = bytes.TrimSpace(in)
		// strip nothing: comments and PIs around the root are fine inside an element
		k := pick(t, 2, 10, 50, 200, 700)
		if len(in)*k > 150000 {
			k = 150000/len(in) + 1
		}
		b.WriteString("<r>")
		for i := 0; i < k; i++ {
			b.Write(in)
		}
		b.WriteString("</r>")
	}
	return []byte(b.String())
}

// genSized writes a document whose tokens have lengths around powers of two.
func genSized(t *rapid.T, b *strings.Builder) {
	size := func(lim int) int {
		if chance(t, 2, 3) {
			return n(t, 1, 12)
		}
		k := 1<<n(t, 4, 16) + n(t, -1, 1)
		for k > lim {
			k = k/2 + n(t, 0, 1)
		}
		if chance(t, 1, 6) {
			k = lim - n(t, 0, 2)
		}
		return k
	}
	unit := func(us ...string) string { return us[n(t, 0, len(us)-1)] }
	const text = 70000
	pre, pname := "", ""
	if chance(t, 1, 2) {
		pname = "p" + fillTo(size(refxml.MaxPrefix)-1, unit("x", "é", "1"))
		pre = pname + ":"
	}
	nm := func() string {
		return pre + "e" + fillTo(size(refxml.MaxQName-len(pre))-1, unit("x", "é", "-", "日"))
	}
	b.WriteString("<r")
	if pre != "" {
		b.WriteString(" xmlns:" + pname + "='" + fillTo(size(text), unit("u", "é", "&amp;")) + "'")
	}
	fmt.Fprintf(b, " b='%s'>", fillTo(size(text), unit("x", "é", "&lt;", "&#65;", "\n")))
	for k := n(t, 1, 5); k > 0; k-- {
		switch n(t, 0, 5) {
		case 0:
			e := nm()
			b.WriteString("<" + e + " " + nm() + "='" + fillTo(size(text), unit("x", "日")) + "'>" + fillTo(size(text), "y") + "</" + e + ">")
		case 1:
			b.WriteString(fillTo(size(text), unit("x", "é", "&amp;", "&#x65e5;", " ", "]")) + "<b/>")
		case 2:
			b.WriteString("<!--" + fillTo(size(text), unit("x", "é", "- ")) + "-->")
		case 3:
			b.WriteString("<![CDATA[" + fillTo(size(text), unit("x", "é", "]", "<&")) + "]]>")
		case 4:
			b.WriteString("<?p" + fillTo(size(3000)-1, unit("x", "é")) + " " + fillTo(size(text), unit("x", "é", "?")) + "?>")
		case 5:
			b.WriteString("<" + nm() + "/>")
		}
	}
	b.WriteString("</r>")
}
