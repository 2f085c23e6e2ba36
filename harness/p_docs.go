package main

import (
	"bytes"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// DocCase is one document.
type DocCase struct {
	Doc  Blob  `json:"doc,omitempty"`
	Enum *Enum `json:"enum,omitempty"` // instead: many small documents

	Sweep *Sweep `json:"sweep,omitempty"` // instead: many edits of one document
	Pump  *Pump  `json:"pump,omitempty"`  // instead: parts of one document repeated many times
	Scale *Scale `json:"scale,omitempty"` // instead: documents with something long or frequent
	Trans *Trans `json:"trans,omitempty"` // instead: pieces of content in a surrounding
}

// docs runs a check on the document of the case, or on each enumerated one; a violation
// in an enumeration names the single document.
func (dc *DocCase) docs(c *Ctx, f func(c *Ctx, doc []byte) error) error {
	each := func(f func([]byte) error) error { return dc.Sweep.each(f) }
	switch {
	case dc.Enum != nil:
		c.Label("enumerated part: " + enumCtxs[dc.Enum.Ctx].name)
		each = func(f func([]byte) error) error { return dc.Enum.each(f) }
	case dc.Sweep != nil:
		c.Label("edit sweep")
	case dc.Pump != nil:
		c.Label("pumping")
		each = func(f func([]byte) error) error { return dc.Pump.each(f) }
	case dc.Scale != nil:
		c.Label("scaling: " + dc.Scale.Kind)
		each = func(f func([]byte) error) error { return dc.Scale.each(f) }
	case dc.Trans != nil:
		c.Label(dc.Trans.label())
		each = func(f func([]byte) error) error { return dc.Trans.each(f) }
	default:
		return f(c, dc.Doc)
	}
	sub := &Ctx{corpus: true}
	err := each(func(doc []byte) error {
		sub.labels = sub.labels[:0]
		sub.evals++
		if err := guard(func() error { return f(sub, doc) }); err != nil {
			if len(doc) > 1<<20 {
				return err
			}
			return &caseErr{&DocCase{Doc: append(Blob(nil), doc...)}, err}
		}
		return nil
	})
	c.evals += sub.evals
	c.nontrivial = sub.nontrivial
	c.known = append(c.known, sub.known...)
	if sub.harness != "" {
		c.Harness("%s", sub.harness)
	}
	return err
}

func enumCases(less int, only ...string) func(string) []any {
	return func(tier string) []any {
		var out []any
		less := less
		if tier == "thorough" {
			less = 0
		}
		for _, e := range enumParts(tier, less, only...) {
			out = append(out, &DocCase{Enum: e})
		}
		from := 0
		if len(only) > 0 {
			from = sweepNs
		}
		for _, e := range sweepParts(tier, from, len(sweepDocs)) {
			out = append(out, &DocCase{Sweep: e})
		}
		if len(only) == 0 {
			for _, e := range append(enumOpen(tier, less+1), enumRuns(tier)...) {
				out = append(out, &DocCase{Enum: e})
			}
		}
		for _, e := range pumpParts(tier, from) {
			out = append(out, &DocCase{Pump: e})
		}
		for _, e := range scaleParts(tier) {
			if e.Kind == "counts" && e.N%9 != 0 || e.Kind == "zeros" && len(only) > 0 && e.N%5 != 0 {
				continue
			}
			if len(only) == 0 || e.Kind == "twins" || e.Kind == "uris" || e.Kind == "attributes" || e.Kind == "declarations" || e.Kind == "offsets" || e.Kind == "zeros" || e.Kind == "widths" {
				out = append(out, &DocCase{Scale: e})
			}
		}
		return out
	}
}

// andTrans adds transplants.
func andTrans(f func(string) []any, l func(tier string) []*Trans) func(string) []any {
	return func(tier string) []any {
		out := f(tier)
		for _, t := range l(tier) {
			out = append(out, &DocCase{Trans: t})
		}
		return out
	}
}

// andBig adds the large documents.
func andBig(f func(string) []any) func(string) []any {
	return func(tier string) []any {
		out := f(tier)
		bigDocs(tier, func(doc []byte, _, _ int) { out = append(out, &DocCase{Doc: doc}) })
		return out
	}
}

// caseErr is a violation together with a smaller case that shows it.
type caseErr struct {
	v   any
	err error
}

func (e *caseErr) Error() string { return e.err.Error() }

func show(doc []byte) string { return trunc(fmt.Sprintf("%q", doc), 1500) }

// feature labels of a reference result.
func labelDoc(c *Ctx, doc []byte, r *refxml.Result) {
	if r.Ascii {
		c.Label("ascii-declared")
	}
	if r.BOM {
		c.Label("bom")
	}
	if r.Version != "" {
		c.Label("xml-declaration")
	}
	if r.HasDTD {
		c.Label("doctype")
	}
	if r.NRefs > 0 {
		c.Label("references")
	}
	if r.NNs > 0 {
		c.Label("xmlns")
	}
	switch {
	case r.MaxDepth >= 100:
		c.Label("depth>=100")
	case r.MaxDepth >= 3:
		c.Label("depth>=3")
	}
	switch {
	case len(doc) > 4096:
		c.Label("size>4096")
	case len(doc) > 1024:
		c.Label("size>1024")
	}
	for _, b := range doc {
		if b >= 0x80 {
			c.Label("non-ascii")
			break
		}
	}
}

// genAccepted makes a document that should be accepted.
func genAccepted(t *rapid.T) []byte {
	switch weighted(t, 10, 6, 2) {
	case 0:
		return genDoc(t, DocCfg{NS: true})
	case 1:
		return genDoc(t, DocCfg{})
	default:
		return genShape(t, true)
	}
}

func accepted(c *Ctx, doc []byte) (*refxml.Result, bool) {
	r := refxml.Parse(doc)
	if r.Verdict != refxml.Accept {
		if !c.corpus {
			c.Harness("generator and reference disagree: %s (%s) on %s", r.Verdict, r.Reason, show(doc))
		}
		return r, false
	}
	return r, true
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "documents generated by construction as well-formed (grammar with every construct, plus wide/deep/many-attribute shapes), cross-checked by an independent reference parser, parsed in each namespace mode; " +
			"non-trivial: at least two elements, or any attribute, reference, comment, PI, CDATA section or DOCTYPE",
		New:   func() any { return &DocCase{} },
		Gen:   func(t *rapid.T) any { return &DocCase{Doc: genAccepted(t)} },
		Check: func(c *Ctx, v any) error { return v.(*DocCase).docs(c, checkAccepted) },
		Fixed: andTrans(andBig(enumCases(1)), func(tier string) []*Trans {
			return append(append(append(append(transParts(tier, 0, 40000, true), transParts(tier, 1, 60000, true)...), transParts(tier, 2, 200000, true)...), transParts(tier, 3, 300000, true)...), transParts(tier, 4, 10000, true)...)
		}),
		Quick: 24000, Thorough: 1200000,
	})

	register(&Prop{
		ID: "C03",
		Rule: "well-formed documents with a single structural injection at any token boundary or byte, token-soup strings, and every string of up to N markup tokens; the reference parser decides ill-formedness; " +
			"non-trivial: the reference rejects the document",
		New: func() any { return &DocCase{} },
		Gen: func(t *rapid.T) any {
			if chance(t, 1, 5) {
				return &DocCase{Doc: genSoup(t)}
			}
			return &DocCase{Doc: genBroken(t)}
		},
		Check: func(c *Ctx, v any) error {
			return v.(*DocCase).docs(c, checkRejected)
		},
		Fixed: andTrans(enumCases(1), func(tier string) []*Trans {
			return append(append(append(append(transParts(tier, 0, 80000, false), transParts(tier, 1, 80000, false)...), transParts(tier, 2, 200000, false)...), transParts(tier, 3, 300000, false)...), transParts(tier, 4, 40000, false)...)
		}),
		Quick: 40000, Thorough: 2000000,
	})

	register(&Prop{
		ID: "C05",
		Rule: "generated well-formed documents; every token's kind, offset, length, prefix length and depth is compared with an independent reference parser, in both namespace modes and both location-cache depths; " +
			"non-trivial: at least four tokens",
		New:   func() any { return &DocCase{} },
		Gen:   func(t *rapid.T) any { return &DocCase{Doc: genAccepted(t)} },
		Check: func(c *Ctx, v any) error { return v.(*DocCase).docs(c, checkTokens) },
		Fixed: andTrans(andBig(enumCases(1)), func(tier string) []*Trans {
			return append(transParts(tier, 0, 40000, true), append(transParts(tier, 3, 100000, true), transParts(tier, 4, 8000, true)...)...)
		}),
		Quick: 24000, Thorough: 1000000,
	})

	register(&Prop{
		ID: "C04",
		Rule: "generated well-formed documents, cut after every byte (documents over 400 bytes: at 150 drawn places); the reference parser run on the prefix decides; " +
			"non-trivial: the document has at least 12 bytes; oracle_comparisons counts the cuts",
		New: func() any { return &CutCase{} },
		Gen: func(t *rapid.T) any {
			cfg := DocCfg{NS: chance(t, 1, 2), Budget: pick(t, 2, 4, 8, 15), MaxDepth: pick(t, 2, 4, 6)}
			cc := &CutCase{Doc: genDoc(t, cfg), NS: cfg.NS}
			if chance(t, 1, 2) {
				cc.Doc = append(cc.Doc, pick(t, "", " ", "\n", "<!--c-->", "<?p?>", "<?p v?>\n", "<!---->\n<?q ?> ", "\r\n<?xmlq v?>")...)
			}
			if len(cc.Doc) > 400 {
				for k := 0; k < 150; k++ {
					cc.Cuts = append(cc.Cuts, n(t, 0, len(cc.Doc)-1))
				}
			}
			return cc
		},
		Check: checkCuts,
		Fixed: func(tier string) []any {
			// every cut of the sweep documents, with and without something behind them
			var out []any
			for _, d := range sweepDocs {
				for _, end := range []string{"", "<!--c-->", "<?p v?>\n<?q?>", " \r\n<!-- - -->\t<?p ??> "} {
					for _, ns := range []bool{false, true} {
						out = append(out, &CutCase{Doc: Blob(d + end), NS: ns})
					}
				}
			}
			for _, p := range partList(tier, 2, 4) {
				if p.Pump == nil || tier == "thorough" {
					out = append(out, &CutCase{Part: p})
				}
			}
			for _, p := range append(scaled(tier, 70000, "values", "edges"), sparse(tier, 3, scaled(tier, 2100, "twins", "uris", "attributes", "declarations", "children", "lines", "space"))...) {
				out = append(out, &CutCase{Part: p})
			}
			for _, p := range sparse(tier, 6, transplanted(tier, 0, 5000, true)) {
				out = append(out, &CutCase{Part: p})
			}
			return out
		},
		Quick: 2600, Thorough: 120000,
	})
}

func checkCuts(c *Ctx, v any) error {
	cc := v.(*CutCase)
	if cc.Part != nil {
		return cc.Part.run(c, func(doc []byte, k int) any {
			one := &CutCase{Doc: doc, NS: k%2 == 1}
			if l := len(doc); l > 100 {
				for i := 1; i < 12; i++ {
					one.Cuts = append(one.Cuts, l-i, (k*7919+i*l/12)%l)
				}
			}
			return one
		}, checkCuts)
	}
	r, ok := accepted(c, cc.Doc)
	if !ok || (cc.NS && r.NS != refxml.Accept) {
		return nil
	}
	labelDoc(c, cc.Doc, r)
	if len(cc.Doc) >= 12 {
		c.NonTrivial()
	}
	cut := func(k int) error {
		c.Evals(1)
		pre := append([]byte(nil), cc.Doc[:k]...)
		_, err := parse(pre, Opts{NS: cc.NS})
		if k < r.RootEnd {
			if err == nil {
				return fmt.Errorf("cut at byte %d (root element ends at %d) is accepted: %s", k, r.RootEnd, show(pre))
			}
			return nil
		}
		pr := refxml.Parse(pre)
		c.Label("cut after the root: " + pr.Verdict.String())
		if pr.Verdict == refxml.Reject && err == nil {
			return fmt.Errorf("cut at byte %d, inside trailing markup, is accepted: %s", k, show(pre))
		}
		if pr.Verdict == refxml.Accept && err != nil {
			return fmt.Errorf("cut at byte %d, after a complete construct, is rejected: %v: %s", k, err, show(pre))
		}
		return nil
	}
	if len(cc.Cuts) > 0 {
		for _, k := range cc.Cuts {
			if k < len(cc.Doc) {
				if err := cut(k); err != nil {
					return &caseErr{&CutCase{Doc: cc.Doc, NS: cc.NS, Cuts: []int{k}}, err}
				}
			}
		}
		return nil
	}
	for k := 0; k < len(cc.Doc); k++ {
		if err := cut(k); err != nil {
			return err
		}
	}
	return nil
}

// CutCase is a document cut after every byte, or only at the given places.
type CutCase struct {
	Doc  Blob  `json:"doc"`
	NS   bool  `json:"ns,omitempty"`
	Cuts []int `json:"cuts,omitempty"`
	Part *Part `json:"part,omitempty"` // instead: many small documents
}

func checkRejected(c *Ctx, doc []byte) error {
	r := refxml.Parse(doc)
	if r.Verdict != refxml.Reject {
		c.Label("verdict: " + r.Verdict.String())
		return nil
	}
	c.NonTrivial()
	reason := r.Reason
	if strings.HasPrefix(reason, "expected ") {
		reason = "malformed fixed delimiter"
	}
	if strings.HasPrefix(reason, "character U+") {
		reason = "illegal character"
	}
	c.Label("reject: " + reason)
	for _, ns := range []bool{false, true} {
		c.Evals(1)
		if _, err := parse(doc, Opts{NS: ns}); err == nil {
			return fmt.Errorf("accepted (ns=%v) although ill-formed: %s at byte %d\ndoc %s", ns, r.Reason, r.E, show(doc))
		}
	}
	return nil
}

var soupToks = []string{"<a>", "</a>", "<a/>", "<b>", "</b>", "<a", ">", "/>", "/", "<", "</", "<!", "<!--", "-->", "--", "-",
	"<?p", "<?p ", "?>", "<?xml version='1.0'?>", "<?", "?", "<![CDATA[", "]]>", "]]", "]", "&", "&amp;", "&#65;", "&#x", ";", "&lt;",
	" ", "\n", "=", "'", "\"", "x", "x='1'", " x='1'", " x=\"1\"", "xmlns", " xmlns:p='u'", "p:", ":", "<!DOCTYPE a>", "<!DOCTYPE a [", "]>",
	"\x00", "\x01", "\xff", "\xc3\xa9", "\xc3", "\xed\xa0\x80", "\xef\xbf\xbe", "\xef\xbb\xbf", "1", "a", "\r", "\r\n", "#", "[", "!", "<a>t</a>",
	"<e y='&amp;'>", "</e>", "version='1.0'", "encoding='UTF-8'", "<r><c/>", "</r>"}

func genSoup(t *rapid.T) []byte {
	var b bytes.Buffer
	open := chance(t, 1, 2)
	if open {
		b.WriteString("<a>")
	}
	for k := n(t, 1, 12); k > 0; k-- {
		b.WriteString(soupToks[n(t, 0, len(soupToks)-1)])
	}
	if open {
		b.WriteString("</a>")
	}
	return b.Bytes()
}

var insertions = []string{"<", ">", "&", "\"", "'", "/", "=", "]]>", "--", "?>", "-->", "<b>", "</b>", "</a>", "<a/>", "<!--", "<?", "<?xml?>",
	"<![CDATA[", "<!DOCTYPE a>", "<![CDATA[x]]>", "<?xml version='1.0'?>", "\x00", "\x01\x02", "\x08", "\x1f", "\xff", "\xc3", "\x80", "\xc0\x80", "\xe0\x80\x80",
	"\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xf4\x90\x80\x80", "\xf0\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xe2\x82",
	"&foo;", "&#0;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#x110000;", "&#4294967361;", "&#x100000041;", "&#;", "&#x;", "&#xG;", "&#1a;", "&amp", "&;", "& ", "&lt", "&#65", "&Amp;",
	"&ampx;", "&#X41;", "x", " x", " x=", " x=1", " x='", " x='<'", " x='1'x", "1", ":", "é", "-", ".", "text", "<1>", "< a>", "</ a>", "<a b>", "<a b='1'c='2'>", "<a/ >", "<a//>",
	"<>", "</>", "<a</a>", "<?p", "<?xml ?>", "<?XML v?>", "<?xMl?>", "<? p?>", "<!-- -- -->", "<!-->", "<!--->", "<!- x -->", "<!a>", "<!>", "<![CDATA x]]>", "<![cdata[x]]>", "<![ CDATA[x]]>", "<!DOCTYPE>", "<!doctype a>",
	"<!ELEMENT a ANY>", "\ufffe", "\xef\xbb\xbf", "\x7f", "--->", "]]]>", "&#x41", "&quot", "&apos", "&gt", "&q;", "&gtt;", "&l;", "&a;", "&am;", "&apo;", "&quo;"}

// genBroken edits a well-formed document once.
func genBroken(t *rapid.T) []byte {
	cfg := DocCfg{NS: chance(t, 1, 2), Budget: pick(t, 2, 4, 8, 20)}
	if chance(t, 1, 40) {
		return breakAt(t, genShape(t, true))
	}
	return breakAt(t, genDoc(t, cfg))
}

// breakAt applies one edit.
func breakAt(t *rapid.T, doc []byte) []byte {
	r := refxml.Parse(doc)
	if len(r.Toks) == 0 {
		return doc
	}
	// a place: a token edge, near one, or any byte
	place := func() int {
		if chance(t, 1, 4) {
			return n(t, 0, len(doc))
		}
		k := r.Toks[n(t, 0, len(r.Toks)-1)]
		p := k.Off
		if chance(t, 1, 2) {
			p += k.Len
		} else if chance(t, 1, 3) && k.Len > 1 {
			p += n(t, 0, k.Len)
		}
		p += pick(t, 0, 0, 0, -1, 1, -2, 2, 3)
		return max(0, min(len(doc), p))
	}
	cut := func(i, j int) []byte { return append(append([]byte(nil), doc[:i]...), doc[j:]...) }
	ins := func(i int, s string) []byte {
		return append(append(append([]byte(nil), doc[:i]...), s...), doc[i:]...)
	}
	switch weighted(t, 10, 4, 4, 3, 3, 2, 2, 2) {
	case 0:
		return ins(place(), pick(t, insertions...))
	case 1: // delete a few bytes
		i := place()
		return cut(i, min(len(doc), i+pick(t, 1, 1, 1, 2, 3, n(t, 1, 12))))
	case 2: // replace a byte
		i := place()
		if i == len(doc) {
			return ins(i, "<")
		}
		d := append([]byte(nil), doc...)
		if chance(t, 1, 4) {
			d[i] = byte(n(t, 0, 255))
		} else {
			d[i] = "<>&'\"=/?!-[] ;#:xa1\x00\xff"[n(t, 0, 20)]
		}
		return d
	case 3: // edit a name: end tags stop matching
		var st []int
		for i, k := range r.Toks {
			if k.Kind == refxml.StartTag || k.Kind == refxml.AttrName || k.Kind == refxml.AttrNs {
				st = append(st, i)
			}
		}
		if len(st) == 0 {
			return ins(place(), "x")
		}
		k := r.Toks[st[n(t, 0, len(st)-1)]]
		i := k.Off + n(t, 0, k.Len)
		switch n(t, 0, 3) {
		case 0:
			return ins(i, pick(t, "x", "1", ":", "-", "&", "=", "é", " ", "\n"))
		case 1:
			return cut(k.Off+k.Len-1, k.Off+k.Len)
		case 2:
			return cut(k.Off, k.Off+1)
		default:
			return cut(k.Off, k.Off+k.Len)
		}
	case 4: // remove or repeat or swap an end tag
		var ends []int
		for i := 0; i+1 < len(doc); i++ {
			if doc[i] == '<' && doc[i+1] == '/' {
				ends = append(ends, i)
			}
		}
		if len(ends) == 0 {
			return ins(place(), "</a>")
		}
		i := ends[n(t, 0, len(ends)-1)]
		j := i + bytes.IndexByte(doc[i:], '>') + 1
		switch n(t, 0, 3) {
		case 0:
			return cut(i, j)
		case 1:
			return ins(j, string(doc[i:j]))
		case 2:
			return append(append(append([]byte(nil), doc[:i]...), pick(t, "</>", "</zz>", "</a >", "</ a>", "</a b='1'>", "</a/>", "</a\n", "<a>", "</A>", "</aa>", "</b>")...), doc[j:]...)
		default:
			return ins(j-1, pick(t, "x", "/", "<", ":", " x", "\x00", "é", "&"))
		}
	case 5: // behind or before the document
		s := pick(t, "x", "<a/>", "&amp;", "</a>", "<![CDATA[x]]>", "<!DOCTYPE a>", "<?xml version='1.0'?>", "<a>", "\x00", "]]>", "<", "<!", "<!--", "<?p", "&#32;", "\xff", ">")
		if chance(t, 1, 2) {
			return append(append([]byte(nil), doc...), s...)
		}
		return ins(0, s)
	case 6: // move a slice elsewhere
		i := place()
		j := min(len(doc), i+n(t, 1, 8))
		s := string(doc[i:j])
		d := cut(i, j)
		k := n(t, 0, len(d))
		return append(append(append([]byte(nil), d[:k]...), s...), d[k:]...)
	default: // repeat a slice
		i := place()
		j := min(len(doc), i+n(t, 1, 10))
		return ins(place(), string(doc[i:j]))
	}
}

func checkAccepted(c *Ctx, doc []byte) error {
	r, ok := accepted(c, doc)
	if !ok {
		return nil
	}
	labelDoc(c, doc, r)
	if len(r.Toks) > 3 {
		c.NonTrivial()
	}
	if _, err := parse(doc, Opts{}); err != nil {
		return fmt.Errorf("well-formed document rejected (ns off): %v\ndoc %s", err, show(doc))
	}
	if r.NS == refxml.Accept {
		c.Label("ns-wellformed")
		c.Evals(1)
		if _, err := parse(doc, Opts{NS: true}); err != nil {
			return fmt.Errorf("namespace-well-formed document rejected (ns on): %v\ndoc %s", err, show(doc))
		}
	}
	return nil
}

func checkTokens(c *Ctx, doc []byte) error {
	r, ok := accepted(c, doc)
	if !ok {
		return nil
	}
	labelDoc(c, doc, r)
	if len(r.Toks) >= 4 {
		c.NonTrivial()
	}
	for _, ns := range []bool{false, true} {
		if ns && r.NS != refxml.Accept {
			continue
		}
		lc := 3
		if len(doc)%2 == 1 {
			lc = 5
		}
		nav, err := parse(doc, Opts{NS: ns, LC: lc})
		if err != nil {
			c.Label("rejected by the library")
			return nil // C02's matter
		}
		if err := compareTokens(c, r, nav, ns); err != nil {
			return fmt.Errorf("ns=%v lc=%d: %w\ndoc %s", ns, lc, err, show(doc))
		}
	}
	return nil
}
