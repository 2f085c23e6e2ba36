package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// nsGen makes documents that are well-formed except, sometimes, in their namespaces.
type nsGen struct {
	t      *rapid.T
	b      bytes.Buffer
	scope  []scopeEntry
	budget int
	wild   int // per cent of careless choices
}

var nsPrefixes = []string{"p", "q", "pq", "r", "xmlp", "xmlns1", "x", "xm", "é", "xmlabc", "PP", "p-", "p.1", "xmln"}

var reservedSpellings = []string{
	refxml.XMLURI, refxml.XMLNSURI,
	"http://www.w3.org/XML/1998/namespac&#101;", "&#104;ttp://www.w3.org/XML/1998/namespace", "http://www.w3.org/XML/1998/&#x6e;amespace",
	"http://www.w3.org/2000/xmlns&#47;", "http://www.w3.org/2000/xmlns&#x2f;", "http://www.w3.org/&#50;000/xmlns/", "&#x68;ttp://www.w3.org/2000/xmlns/",
}

var nearReserved = []string{
	"http://www.w3.org/XML/1998/namespac", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/xmlns//",
	"http://www.w3.org/2000/xmlnsx", "http://www.w3.org/XML/1998/namespacE", "http://www.w3.org/2001/xmlns/", "HTTP://www.w3.org/2000/xmlns/",
	"http://www.w3.org/", "http://www.w3.org/&#50;000/", "&#104;ttp://www.w3.org/2000/xmlns", "http://www.w3.org/XML/1998/&#110;amespac",
	"&#104;&#116;&#116;&#112;&#58;//www.w3.org/", "http://www.w3.org/2000/xmlns&amp;", "http://www.w3.org/XML/1998/namespace&#x20;",
	" http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespacenamespace", "http://www.w3.org/1999/xhtml/namespace/1",
}

var plainUris = []string{"u", "v", "w", "u&amp;v", "&#117;", "&#x75;", "u&#38;v", "u&#x26;v", "&#118;", "uv", "u&#118;", "&#x75;v", "é", "&#233;", "&#xE9;",
	"'", "&apos;", "&#39;", "\"", "&quot;", "a&lt;b", "a&#60;b", "a>b", "a&gt;b", "&#x1F600;", "😀", "urn:a:b", "U"}

func (g *nsGen) uri() string {
	if chance(g.t, 1, 8) {
		// a name in another spelling, reserved ones if careless
		s, _ := refxml.Resolve([]byte(pick(g.t, append(plainUris, nearReserved...)...)))
		if g.careless() {
			s = pick(g.t, refxml.XMLURI, refxml.XMLNSURI)
		}
		return respell(g.t, s)
	}
	switch weighted(g.t, 16, 2, 2) {
	case 0:
		return plainUris[n(g.t, 0, len(plainUris)-1)]
	case 1:
		return nearReserved[n(g.t, 0, len(nearReserved)-1)]
	default:
		if g.careless() {
			return reservedSpellings[n(g.t, 0, len(reservedSpellings)-1)]
		}
		return "w"
	}
}

func (g *nsGen) careless() bool { return g.wild > 0 && chance(g.t, g.wild, 100) }

func (g *nsGen) quoteRaw(v string) string {
	switch {
	case strings.Contains(v, "'"):
		return `"` + strings.ReplaceAll(v, `"`, "&quot;") + `"`
	case strings.Contains(v, `"`) || chance(g.t, 1, 2):
		return "'" + v + "'"
	}
	return `"` + v + `"`
}

func (g *nsGen) declared() []string {
	var ps []string
	for _, s := range g.scope {
		if s.prefix != "" {
			ps = append(ps, s.prefix)
		}
	}
	return ps
}

func (g *nsGen) use() string {
	if g.careless() {
		switch n(g.t, 0, 3) {
		case 0:
			return nsPrefixes[n(g.t, 0, len(nsPrefixes)-1)]
		case 1:
			return "xmlns"
		case 2:
			return "un"
		default:
			ps := g.declared()
			if len(ps) > 0 {
				p := ps[n(g.t, 0, len(ps)-1)]
				return pick(g.t, p+"x", p[:len(p)-len(p)/2], strings.ToUpper(p), "a"+p)
			}
			return "p"
		}
	}
	ps := g.declared()
	if len(ps) == 0 || chance(g.t, 1, 8) {
		return "xml"
	}
	return ps[n(g.t, 0, len(ps)-1)]
}

func validPrefix(p string) bool {
	r := refxml.Parse([]byte("<" + p + "/>"))
	return r.Verdict == refxml.Accept && !strings.ContainsAny(p, ": />=")
}

func (g *nsGen) element(depth int) {
	t := g.t
	g.budget--
	mark := len(g.scope)
	used := map[string]bool{}
	type at struct{ n, v string }
	var as []at
	add := func(name, val string) bool {
		if used[name] {
			return false
		}
		used[name] = true
		as = append(as, at{name, g.quoteRaw(val)})
		return true
	}
	for k := n(t, 0, 3); k > 0 && (depth < 3 || chance(t, 1, 3)); k-- {
		switch weighted(t, 10, 3, 1, 1) {
		case 0:
			p := nsPrefixes[n(t, 0, len(nsPrefixes)-1)]
			u := g.uri()
			if g.careless() && chance(t, 1, 3) {
				u = ""
			}
			if add("xmlns:"+p, u) {
				g.scope = append(g.scope, scopeEntry{p, u})
			}
		case 1:
			u := g.uri()
			if chance(t, 1, 3) {
				u = ""
			}
			add("xmlns", u)
		case 2:
			if g.careless() {
				add("xmlns:xml", pick(t, refxml.XMLNSURI, "u", "", "http://www.w3.org/XML/1998/namespac", "http://www.w3.org/XML/1998/namespace "))
			} else {
				add("xmlns:xml", pick(t, refxml.XMLURI, refxml.XMLURI, "http://www.w3.org/XML/1998/namespac&#101;", "&#104;ttp://www.w3.org/XML/1998/namespace"))
			}
		case 3:
			if g.careless() {
				add("xmlns:xmlns", pick(t, refxml.XMLNSURI, "u", ""))
			}
		}
	}
	name := pick(t, "a", "b", "xml", "xmlns", "x", "é", "p")
	if chance(t, 1, 2) {
		p := g.use()
		if validPrefix(p) {
			name = p + ":" + name
		}
	}
	for k := n(t, 0, 3); k > 0; k-- {
		an := pick(t, "a", "b", "xml", "p", "x", "é", "ab")
		if chance(t, 2, 3) {
			p := g.use()
			if validPrefix(p) && p != "xmlns" {
				an = p + ":" + an
			}
		}
		add(an, pick(t, "", "1", "&amp;", "x y"))
	}
	if len(as) > 1 && chance(t, 1, 2) {
		k := n(t, 1, len(as)-1)
		as = append(append([]at{}, as[k:]...), as[:k]...)
	}
	g.b.WriteString("<" + name)
	for _, a := range as {
		g.b.WriteString(pick(t, " ", " ", "\n", "\t ") + a.n + "=" + a.v)
	}
	if chance(t, 1, 10) {
		g.b.WriteString(" ")
	}
	if chance(t, 1, 6) {
		g.b.WriteString("/>")
		g.scope = g.scope[:mark]
		return
	}
	g.b.WriteString(">")
	for g.budget > 0 && chance(t, 4, 5) && depth < 12 {
		if chance(t, 1, 8) {
			g.b.WriteString("t")
		}
		g.element(depth + 1)
	}
	g.b.WriteString("</" + name + ">")
	g.scope = g.scope[:mark]
}

func genNs(t *rapid.T) []byte {
	g := &nsGen{t: t, budget: pick(t, 2, 4, 8, 20, 40), wild: pick(t, 0, 2, 5, 20, 40)}
	if chance(t, 1, 8) {
		g.b.WriteString("<?xml version='1.0'?>")
	}
	if chance(t, 1, 15) {
		return genNsMany(t)
	}
	g.element(0)
	return g.b.Bytes()
}

// genNsMany makes documents with many declarations, so that tables grow over pages, and
// one use at the end that is right or wrong.
func genNsMany(t *rapid.T) []byte {
	var b strings.Builder
	k := pick(t, 3, 30, 63, 64, 65, 127, 128, 129, 200)
	style := n(t, 0, 2)
	target := n(t, 0, k-1)
	switch style {
	case 0: // all on one element
		b.WriteString("<r")
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, " xmlns:n%d='u%d'", i, i%(k-1))
		}
		use := pick(t, fmt.Sprintf("n%d", target), fmt.Sprintf("n%d", k), "n", "n0")
		other := pick(t, fmt.Sprintf("n%d", k-1), "n0", "n1")
		fmt.Fprintf(&b, " %s:a='1' %s:b='2'", use, other)
		if chance(t, 1, 2) {
			fmt.Fprintf(&b, " %s:a='3'", pick(t, "n0", fmt.Sprintf("n%d", k-1), "n1"))
		}
		b.WriteString("/>")
	case 1: // nested, each shadows
		if k > 200 {
			k = 200
		}
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "<p:e xmlns:p='u%d'>", i)
			if i%3 == 0 {
				fmt.Fprintf(&b, "<q:s xmlns:q='x%d' p:a='1' q:a='2'/>", i)
			}
		}
		b.WriteString(pick(t, "<q:x/>", "<p:x/>", "<p:x xmlns:q='u0' q:a='' p:a=''/>", fmt.Sprintf("<p:x xmlns:q='u%d' q:a='' p:a=''/>", k-1)))
		for i := 0; i < k; i++ {
			b.WriteString("</p:e>")
			if i == target && i < k-1 {
				b.WriteString(pick(t, "", "<q:y/>", "<p:y p:a=''/>", fmt.Sprintf("<p:y xmlns:z='u%d' z:a='' p:a=''/>", k-2-i), fmt.Sprintf("<p:y xmlns:z='u%d' z:a='' p:a=''/>", k-1-i)))
			}
		}
	default: // siblings, scopes close
		b.WriteString("<r xmlns:o='o'>")
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "<s%d:e xmlns:s%d='u' xmlns:t='v' t:a='1' s%d:a='2'", i, i, i)
			if chance(t, 1, 2) {
				b.WriteString("/>")
			} else {
				fmt.Fprintf(&b, "><t:f s%d:b='1'/></s%d:e>", i, i)
			}
		}
		b.WriteString(pick(t, "<o:z/>", "<t:z/>", fmt.Sprintf("<s%d:z/>", k-1), "<z o:a=''/>", "<z t:a=''/>", "<s0:z xmlns:s0='q'/>"))
		b.WriteString("</r>")
	}
	return []byte(b.String())
}

// genAttrs makes elements whose attribute names are nearly or really the same.
func genAttrs(t *rapid.T) []byte {
	var b strings.Builder
	prefs := []string{"p", "q", "pp", "xmlp"}
	us := []string{"u", "u", "&#117;", "v", "u&amp;", "u&#38;", "uu"}
	if chance(t, 1, 3) {
		x := pick(t, "u", "http://e.org/kK", "a&b;", "\u4e2d\u6587", "\U0001f600<")
		us = []string{respell(t, x), respell(t, x), respell(t, x), respell(t, x+"u"), respell(t, "u"+x)}
		for i, u := range us {
			us[i] = strings.ReplaceAll(u, "'", "&apos;")
		}
	}
	decl := func() string {
		var s string
		for _, p := range prefs {
			if chance(t, 2, 3) {
				s += " xmlns:" + p + "='" + us[n(t, 0, len(us)-1)] + "'"
			}
			if chance(t, 1, 8) {
				// declarations that bind no prefix anew stand between the others
				s += pick(t, " xmlns:xml='"+refxml.XMLURI+"'", " xmlns='u'", " xmlns=''")
				decls := strings.Split(s, " xmlns")
				seen := map[string]bool{}
				s = ""
				for _, d := range decls[1:] {
					name, _, _ := strings.Cut(d, "=")
					if !seen[name] {
						s += " xmlns" + d
					}
					seen[name] = true
				}
			}
		}
		return s
	}
	outer := ""
	for _, p := range prefs {
		outer += " xmlns:" + p + "='" + us[n(t, 0, len(us)-1)] + "'"
	}
	switch n(t, 0, 9) {
	case 0:
		outer = " xmlns:xml='" + refxml.XMLURI + "'" + outer
	case 1:
		outer += " xmlns:xml='" + refxml.XMLURI + "'"
	case 2:
		outer = " xmlns='u'" + outer
	}
	b.WriteString("<r" + outer + ">")
	for k := n(t, 1, 3); k > 0; k-- {
		d := ""
		if chance(t, 1, 3) {
			d = decl()
		}
		var as []string
		locals := []string{"a", "b", "ab", "aa", "é", "a-", "xml"}
		count := weighted(t, 10, 3, 1)
		lim := []int{6, 30, pick(t, 255, 256, 257, 300, 400)}[count]
		for i := n(t, lim/2, lim); i > 0; i-- {
			l := locals[n(t, 0, len(locals)-1)]
			if lim > 6 {
				l = fmt.Sprintf("%s%d", l, i)
			} else if chance(t, 1, 4) {
				l += fmt.Sprint(n(t, 0, 20))
			}
			if chance(t, 1, 2) {
				l = prefs[n(t, 0, len(prefs)-1)] + ":" + l
			} else if chance(t, 1, 15) {
				l = "xml:" + l
			}
			as = append(as, l)
		}
		// usually remove written duplicates, sometimes plant one
		if chance(t, 4, 5) {
			seen := map[string]bool{}
			var u []string
			for _, a := range as {
				if !seen[a] {
					u = append(u, a)
				}
				seen[a] = true
			}
			as = u
		}
		if len(as) > 0 && lim > 6 && chance(t, 1, 2) {
			x := as[n(t, 0, len(as)-1)]
			if i := strings.IndexByte(x, ':'); i > 0 && chance(t, 2, 3) {
				x = prefs[n(t, 0, len(prefs)-1)] + x[i:]
			}
			k := n(t, 0, len(as))
			as = append(as[:k:k], append([]string{x}, as[k:]...)...)
		}
		b.WriteString("<e")
		late := chance(t, 1, 3)
		if !late {
			b.WriteString(d)
		}
		for _, a := range as {
			fmt.Fprintf(&b, "%s%s='%s'", pick(t, " ", " ", "\n "), a, pick(t, "", "1", "x"))
		}
		if late {
			b.WriteString(d)
		}
		b.WriteString(pick(t, "/>", "></e>", " />", "><c a='' b=''/></e>"))
	}
	b.WriteString("</r>")
	return []byte(b.String())
}

// checkNs compares the verdicts in both modes with the reference.
func checkNs(c *Ctx, doc []byte) error {
	r := refxml.Parse(doc)
	if r.Verdict == refxml.Unclaimed {
		c.Label("unclaimed")
		return nil
	}
	if r.Verdict == refxml.Reject {
		c.Label("rejected in every mode: " + r.Reason)
		c.NonTrivial()
		for _, ns := range []bool{false, true} {
			if _, err := parse(doc, Opts{NS: ns}); err == nil {
				return fmt.Errorf("accepted (ns=%v) although: %s\ndoc %s", ns, r.Reason, show(doc))
			}
		}
		return nil
	}
	if _, err := parse(doc, Opts{}); err != nil {
		return fmt.Errorf("rejected without namespace awareness: %v\ndoc %s", err, show(doc))
	}
	if r.NS == refxml.Unclaimed {
		c.Label("namespace verdict unclaimed: " + r.NSReason)
		return nil
	}
	if r.NAttrs > 0 {
		c.NonTrivial()
	}
	_, err := parse(doc, Opts{NS: true})
	c.Evals(1)
	if r.NS == refxml.Accept {
		c.Label("accept")
		if err != nil {
			return fmt.Errorf("rejected with namespace awareness: %v\ndoc %s", err, show(doc))
		}
		return nil
	}
	c.Label("reject: " + r.NSReason)
	if err == nil {
		return fmt.Errorf("accepted with namespace awareness although: %s\ndoc %s", r.NSReason, show(doc))
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "generated documents whose prefixes and declarations are mostly right and sometimes not (unbound, out of scope, reserved, undeclared, near-reserved names, names written with references, up to 200 declarations), plus the enumerated attribute lists; verdict with namespace awareness compared with an independent resolver; " +
			"non-trivial: the document has attributes and a definite namespace verdict",
		New:   func() any { return &DocCase{} },
		Gen:   func(t *rapid.T) any { return &DocCase{Doc: genNs(t)} },
		Check: func(c *Ctx, v any) error { return v.(*DocCase).docs(c, checkNs) },
		Fixed: andTrans(with(enumCases(0, "attributes"), spellCases(false)...), func(tier string) []*Trans {
			return append(transParts(tier, 0, 40000, true), append(transParts(tier, 2, 400000, false), transParts(tier, 3, 300000, false)...)...)
		}),
		Quick: 60000, Thorough: 3000000,
	})
	register(&Prop{
		ID: "C07",
		Rule: "generated elements with up to 400 attributes whose written or expanded names repeat or nearly repeat at any pair of positions, plus the enumerated attribute lists; verdict in both modes compared with an independent reference; " +
			"non-trivial: the document has attributes and a definite verdict",
		New:   func() any { return &DocCase{} },
		Gen:   func(t *rapid.T) any { return &DocCase{Doc: genAttrs(t)} },
		Check: func(c *Ctx, v any) error { return v.(*DocCase).docs(c, checkNs) },
		Fixed: andTrans(with(enumCases(0, "attributes"), spellCases(true)...), func(tier string) []*Trans {
			return append(transParts(tier, 0, 20000, true), append(transParts(tier, 2, 400000, false), transParts(tier, 3, 300000, false)...)...)
		}),
		Quick: 30000, Thorough: 1500000,
	})
}
