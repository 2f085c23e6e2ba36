package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// ---------------------------------------------------------------- C01 no crash, no hang

// AnyOpt is one parser option.
type AnyOpt struct {
	Op string `json:"op"` // doc, nildoc, win, ns, lc, reuse
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	On bool   `json:"on,omitempty"`
}

// AnyCase is any use of the parser on any bytes.
type AnyCase struct {
	Doc   Blob       `json:"doc"`
	Opts  []AnyOpt   `json:"opts"`
	Moves []int      `json:"moves,omitempty"`
	Rng   [][2]int32 `json:"rng,omitempty"`

	Sweep *Sweep `json:"sweep,omitempty"` // instead of Doc: many edits of one document
	Enum  *Enum  `json:"enum,omitempty"`  // instead: many small documents
	Pump  *Pump  `json:"pump,omitempty"`  // instead: parts of one document repeated many times
	Scale *Scale `json:"scale,omitempty"` // instead: documents with something long or frequent
	Trans *Trans `json:"trans,omitempty"` // instead: pieces of content in a surrounding
}

func anyOpts(doc []byte, os []AnyOpt) []parser.Option {
	var l []parser.Option
	for _, o := range os {
		switch o.Op {
		case "doc":
			l = append(l, parser.WithXmlDoc(doc))
		case "nildoc":
			l = append(l, parser.WithXmlDoc(nil))
		case "win":
			l = append(l, parser.WithXmlDocCustomOffset(doc, o.A, o.B))
		case "ns":
			l = append(l, parser.WithNameSpaceAware(o.On))
		case "lc":
			l = append(l, parser.WithLcDepth(o.A))
		case "reuse":
			l = append(l, parser.WithBufferReuse(o.On))
		}
	}
	return l
}

// genAnyBytes makes any bytes, most of them close to XML.
func genAnyBytes(t *rapid.T) []byte {
	switch weighted(t, 2, 2, 4, 5, 3, 3, 2, 1, 1) {
	case 0:
		var b []byte
		for k := n(t, 0, 60); k > 0; k-- {
			b = append(b, byte(n(t, 0, 255)))
		}
		return b
	case 1:
		var b []byte
		for k := n(t, 0, 60); k > 0; k-- {
			b = append(b, "<>&'\"=/?!-[]x:a ;#1\n\r\xef\xbb\xbf\xc3\xa9\x00"[n(t, 0, 26)])
		}
		return b
	case 2:
		return genSoup(t)
	case 3:
		return genBroken(t)
	case 4:
		d := genBroken(t)
		if len(d) > 5000 {
			return d
		}
		return breakAt(t, breakAt(t, d))
	case 5: // cut, anywhere
		d := genDoc(t, DocCfg{NS: chance(t, 1, 2)})
		i := n(t, 0, len(d))
		if chance(t, 2, 3) {
			i = 0
		}
		return d[i:n(t, i, len(d))]
	case 6:
		return genAccepted(t)
	case 7: // UTF-16, with and without byte-order mark
		d := genDoc(t, DocCfg{Budget: 4})
		var b []byte
		be := chance(t, 1, 2)
		if chance(t, 1, 2) {
			if be {
				b = append(b, 0xFE, 0xFF)
			} else {
				b = append(b, 0xFF, 0xFE)
			}
		}
		for _, c := range d {
			if be {
				b = append(b, 0, c)
			} else {
				b = append(b, c, 0)
			}
		}
		return b
	default:
		return hugeDoc(genHuge(t))
	}
}

func genAnyCase(t *rapid.T) any {
	ac := &AnyCase{}
	ac.Doc = genAnyBytes(t)
	if ac.Doc == nil {
		ac.Doc = Blob{}
	}
	l := len(ac.Doc)
	switch weighted(t, 12, 6, 1, 1) {
	case 0:
		ac.Opts = append(ac.Opts, AnyOpt{Op: "doc"})
	case 1:
		o := pick(t, n(t, 0, l), n(t, -1, l+1), math.MaxInt64, math.MinInt64, -1, l)
		k := pick(t, l-o, n(t, 0, max(0, l)), n(t, -1, l+1), math.MaxInt64, math.MinInt64, math.MaxInt64-o, -1)
		if chance(t, 2, 3) {
			o = n(t, 0, l)
			k = n(t, 0, l-o)
		}
		ac.Opts = append(ac.Opts, AnyOpt{Op: "win", A: o, B: k})
	case 2:
		ac.Opts = append(ac.Opts, AnyOpt{Op: "nildoc"})
	}
	if chance(t, 2, 3) {
		ac.Opts = append(ac.Opts, AnyOpt{Op: "ns", On: chance(t, 3, 4)})
	}
	if chance(t, 1, 2) {
		ac.Opts = append(ac.Opts, AnyOpt{Op: "lc", A: pick(t, 5, 3, 4, 0, -1, 6, math.MaxInt64)})
	}
	if chance(t, 1, 3) {
		ac.Opts = append(ac.Opts, AnyOpt{Op: "reuse", On: chance(t, 1, 2)})
	}
	if chance(t, 1, 12) {
		ac.Opts = append(ac.Opts, AnyOpt{Op: pick(t, "doc", "win"), A: 0, B: l})
	}
	if k := len(ac.Opts); k > 1 && chance(t, 1, 2) {
		i := n(t, 0, k-1)
		ac.Opts[0], ac.Opts[i] = ac.Opts[i], ac.Opts[0]
	}
	for k := n(t, 0, 25); k > 0; k-- {
		ac.Moves = append(ac.Moves, pick(t, 2, 4, 2, 3, 4, 5, 1, 0, 6, -1))
	}
	for k := n(t, 0, 2); k > 0; k-- {
		ac.Rng = append(ac.Rng, genRange(t, l))
	}
	return ac
}

func checkAny(c *Ctx, v any) error {
	ac := v.(*AnyCase)
	var each func(func([]byte) error) error
	switch {
	case ac.Sweep != nil:
		each = ac.Sweep.each
		c.Label("edit sweep")
	case ac.Enum != nil:
		each = ac.Enum.each
		c.Label("enumerated part: " + enumCtxs[ac.Enum.Ctx].name)
	case ac.Pump != nil:
		each = ac.Pump.each
		c.Label("pumping")
	case ac.Scale != nil:
		each = ac.Scale.each
		c.Label("scaling: " + ac.Scale.Kind)
	case ac.Trans != nil:
		each = ac.Trans.each
		c.Label(ac.Trans.label())
	}
	if each != nil {
		sub := &Ctx{corpus: true}
		err := each(func(doc []byte) error {
			one := *ac
			one.Sweep, one.Enum, one.Pump, one.Scale, one.Trans, one.Doc = nil, nil, nil, nil, nil, append(Blob{}, doc...)
			sub.labels = sub.labels[:0]
			sub.evals++
			if err := guard(func() error { return checkAny(sub, &one) }); err != nil {
				if len(doc) > 1<<20 {
					return err
				}
				return &caseErr{&one, err}
			}
			return nil
		})
		c.Evals(sub.evals)
		c.NonTrivial()
		return err
	}
	if ac.Doc == nil {
		ac.Doc = Blob{}
	}
	p, err := parser.NewVtdParser(anyOpts(ac.Doc, ac.Opts)...)
	if (p == nil) == (err == nil) {
		return fmt.Errorf("constructor: parser %v, error %v", p != nil, err)
	}
	if err != nil {
		c.Label("constructor refuses")
		return nil
	}
	if nav, err := p.GetNav(); (nav == nil) == (err == nil) {
		return fmt.Errorf("GetNav before parsing: object %v, error %v", nav != nil, err)
	}
	if len(ac.Doc) >= 6 {
		c.NonTrivial()
	}
	perr := p.Parse()
	nav, err := p.GetNav()
	if (nav == nil) == (err == nil) {
		return fmt.Errorf("GetNav: object %v, error %v", nav != nil, err)
	}
	if perr != nil {
		c.Label("rejected: " + errKind(perr))
		if nav != nil {
			return fmt.Errorf("GetNav gives an object after a failed parse (%v)", perr)
		}
		return nil
	}
	if nav == nil {
		return fmt.Errorf("GetNav after a successful parse: %v", err)
	}
	c.Label("accepted")
	size := nav.GetVtdBufferSize()
	_ = nav.GetEncoding()
	for i := -1; i <= size+1; i++ {
		_, e1 := nav.GetTokenType(i)
		_, e2 := nav.GetTokenOffset(i)
		_, e3 := nav.GetTokenLength(i)
		_, e4 := nav.GetTokenDepth(i)
		s, e5 := nav.ToStringAtIndex(i)
		w, e6 := nav.ToRawStringAtIndex(i)
		if i < 0 || i >= size {
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil || e6 == nil || s != "" || w != "" {
				return fmt.Errorf("index %d of %d tokens gives no error somewhere (%v, %v, %v, %v, %v, %v)", i, size, e1, e2, e3, e4, e5, e6)
			}
		} else if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil || e6 != nil {
			return fmt.Errorf("token %d of %d of an accepted document gives an error (%v, %v, %v, %v, %v, %v)\ndoc %s", i, size, e1, e2, e3, e4, e5, e6, show(ac.Doc))
		}
		c.Evals(1)
	}
	for _, r := range ac.Rng {
		_, _ = nav.ToStringAtRange(r[0], r[1])
		_, _ = nav.ToRawStringAtRange(r[0], r[1])
	}
	for _, m := range ac.Moves {
		_, err := nav.ToElement(navigation.Direction(m))
		if err != nil && m >= 0 && m <= 5 {
			return fmt.Errorf("move %d over an accepted document: %v\ndoc %s", m, err, show(ac.Doc))
		}
		if i, err := nav.GetCurrentIndex(); err != nil || int(i) >= size || i < 0 {
			return fmt.Errorf("the cursor is at %d of %d tokens, error %v\ndoc %s", i, size, err, show(ac.Doc))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C12 limits

// HugeCase is a document around one of the size limits.
type HugeCase struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`           // the size that matters
	M    int    `json:"m,omitempty"` // a second size
	Unit string `json:"unit,omitempty"`
	NS   bool   `json:"ns,omitempty"`
	LC   int    `json:"lc,omitempty"`
	Pad  int    `json:"pad,omitempty"`
	Deep int    `json:"deep,omitempty"` // inside so many elements
	Sur  int    `json:"sur,omitempty"`  // index into hugeSurs
	Q    bool   `json:"q,omitempty"`    // the other quotes
	Win  int    `json:"win,omitempty"`  // as a window behind so many bytes
}

// hugeSurs are put around whole documents; those with root: around the root element.
var hugeSurs = []struct {
	pre, post string
	root      bool
}{
	{}, {"<?xml version='1.0' encoding='US-ASCII'?>", "", false}, {"<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", "\n", false}, {"\xef\xbb\xbf", "", false},
	{"<!DOCTYPE r [<!ENTITY a 'b'>]>", "<!--x-->", false}, {"<!--c--><?p v?>\n", "<?p v?>\n", false}, {"\xef\xbb\xbf<?xml version='1.1'?><!DOCTYPE r>\r\n", "\n<!--x--><?p?>", false},
	{"<w a='1' b='2' xmlns:c='3' c:d='4'>", "</w>", true}, {"<w>" + rep("<b a=''>x</b>", 300), "<b/></w>", true}, {"<w xmlns='u'><b/>t<!--c--><![CDATA[d]]><?p v?>", "t</w>", true},
	{"<w" + seqs(nil, 40, func(i int) string { return fmt.Sprintf(" xmlns:n%d='u%d' a%d=''", i, i, i) }) + "><c>", "</c></w>", true}, {rep("<w><b/>", 5), rep("<b/></w>", 5), true},
	{"<?xml version='1.0' encoding='ascii'?><w><c>" + rep("\n", 70000), "</c></w>", true},
}

var hugeKinds = []string{"depth empty", "depth prefix", "depth attr", "depth sibling", "depth late", "depth attrs deep", "elem empty", "elem attr", "elem prefix content", "elem second", "attr second", "attr xml prefix", "xmlns second",
	"default uri", "prefixed value", "last value", "pi both", "trailing pi both", "prolog pi both", "doctype system", "doctype name", "doctype public", "twice", "twice cdata", "text pi text", "depth", "elem", "elem prefix", "attr", "attr prefix", "xmlns", "value", "uri", "pi target", "pi value", "doctype", "text", "cdata", "comment", "prolog comment", "prolog pi", "trailing pi", "trailing comment", "ws", "between", "prolog target", "trailing target", "end space", "declaration"}

// fillTo repeats unit and tops up with 'x' to exactly size bytes.
func fillTo(size int, unit string) string {
	if size <= 0 {
		return ""
	}
	if unit == "" {
		unit = "x"
	}
	k := size / len(unit)
	return strings.Repeat(unit, k) + strings.Repeat("x", size-k*len(unit))
}

// hugeAround are things before and behind a text.
var hugeAround = [][2]string{{"", ""}, {"<b/>", "<b/>"}, {"<b>x</b>", "<b>y</b>"}, {"<!--c-->", "<!--c-->"}, {"<?p v?>", "<?p v?>"}, {"<![CDATA[x]]>", "<![CDATA[y]]>"}, {"<?p?>", "<b></b>"}, {"<b></b>", "<?p?>"}, {"<b c=''>x<d/></b>", "<b c=''/>z"}}

// fillSpace is fillTo with a line feed for the rest.
func fillSpace(size int, unit string) string {
	return strings.ReplaceAll(fillTo(size, unit), "x", "\n")
}

func hugeDoc(h *HugeCase) []byte {
	if h.Sur > 0 || h.Q {
		in := *h
		in.Sur, in.Q = 0, false
		d := string(hugeDoc(&in))
		su := hugeSurs[h.Sur%len(hugeSurs)]
		if su.root && strings.HasPrefix(d, "<?xml ") || strings.Contains(su.pre+"|"+d, "<!DOCTYPE") && (su.root || strings.HasPrefix(d, "<!DOCTYPE") && strings.Contains(su.pre, "<!DOCTYPE")) {
			su.pre, su.post = "", ""
		}
		if h.Q {
			d = strings.ReplaceAll(d, "'", "\"")
		}
		return []byte(su.pre + d + su.post)
	}
	if h.Deep > 0 {
		in := *h
		in.Deep = 0
		d := string(hugeDoc(&in))
		if strings.Contains(d, "<!DOCTYPE") || h.Deep > 1000 {
			return []byte(d)
		}
		return []byte(strings.Repeat("<w>", h.Deep) + d + strings.Repeat("</w>", h.Deep))
	}
	pad := strings.Repeat(" ", h.Pad)
	switch h.Kind {
	case "depth":
		k := h.N
		return []byte(strings.Repeat("<a>", k) + "t" + strings.Repeat("</a>", k))
	case "depth empty":
		return []byte(strings.Repeat("<a>", h.N-1) + "<a/>" + strings.Repeat("</a>", h.N-1))
	case "depth prefix":
		return []byte("<a xmlns:p='u'>" + strings.Repeat("<p:a>", h.N-1) + strings.Repeat("</p:a>", h.N-1) + "</a>")
	case "depth attr":
		return []byte(strings.Repeat("<a b='c'>", h.N) + strings.Repeat("</a\n>", h.N))
	case "depth sibling":
		return []byte(strings.Repeat("<a><b/>", h.N-1) + "<a/>" + strings.Repeat("<b/></a>", h.N-1))
	case "depth late":
		k := h.N - 1
		return []byte("<r>" + strings.Repeat("<a>", k/2) + strings.Repeat("</a>", k/2) + "<b/>" + strings.Repeat("<a>", k) + strings.Repeat("</a>", k) + "</r>")
	case "depth attrs deep":
		return []byte(strings.Repeat("<a>", h.N-1) + "<a xmlns:p='u' p:b='' c='d'>t<!--c--><?p v?><![CDATA[x]]></a>" + strings.Repeat("</a>", h.N-1))
	case "elem empty":
		return []byte("<r><" + "e" + fillTo(h.N-1, h.Unit) + "/>" + pad + "</r>")
	case "elem attr":
		nm := "e" + fillTo(h.N-1, h.Unit)
		return []byte("<r><" + nm + "\n a='1' xmlns='u'><b/></" + nm + pad + "></r>")
	case "elem prefix content":
		p := "p" + fillTo(h.N-1, h.Unit)
		nm := p + ":" + "e" + fillTo(h.M-1, h.Unit)
		return []byte("<" + nm + " a='' xmlns:" + p + "='u'>t<" + nm + "/></" + nm + pad + ">")
	case "elem second":
		nm := "e" + fillTo(h.N-1, h.Unit)
		return []byte("<r><b>t</b><" + nm + "></" + nm + "><" + nm + "/></r>" + pad)
	case "attr second":
		a := "a" + fillTo(h.N-2, h.Unit)
		return []byte("<r" + pad + " " + a + "x='' " + a + "y='1'>t</r>")
	case "attr xml prefix":
		return []byte("<r xml:a" + fillTo(h.N-5, h.Unit) + "='1'>" + pad + "</r>")
	case "xmlns second":
		return []byte("<r b='' xmlns:b='u' xmlns:a" + fillTo(h.N-7, h.Unit) + "='u' b:c=''/>" + pad)
	case "default uri":
		return []byte("<r xmlns='" + fillTo(h.N, h.Unit) + "'><a/></r>" + pad)
	case "prefixed value":
		return []byte("<r xmlns:p='u' p:a='" + fillTo(h.N, h.Unit) + "'>t</r>" + pad)
	case "last value":
		return []byte("<r b='' c='d'><b a='x' c='" + fillTo(h.N, h.Unit) + "'/></r>" + pad)
	case "pi both":
		return []byte("<r><?p" + fillTo(h.N-1, h.Unit) + " " + fillTo(h.N, h.Unit) + "?>t</r>" + pad)
	case "trailing pi both":
		return []byte("<r/>" + pad + "<?p" + fillTo(h.N-1, h.Unit) + " " + fillTo(h.N, h.Unit) + "?>")
	case "prolog pi both":
		return []byte("<?p" + fillTo(h.N-1, h.Unit) + " " + fillTo(h.N, h.Unit) + "?>" + pad + "<r/>")
	case "doctype system":
		return []byte("<!DOCTYPE r SYSTEM '" + fillTo(h.N-12, h.Unit) + "'>" + pad + "<r/>")
	case "doctype public":
		return []byte("<!DOCTYPE r PUBLIC 'a' '" + fillTo(h.N-16, h.Unit) + "'>" + pad + "<r/>")
	case "doctype name":
		return []byte("<!DOCTYPE r" + fillTo(h.N-2, h.Unit) + ">" + pad + "<r/>")
	case "twice":
		return []byte("<r>" + fillTo(h.N, h.Unit) + "<!--" + fillTo(h.N, h.Unit) + "-->" + fillTo(h.N, h.Unit) + "</r>" + pad)
	case "twice cdata":
		return []byte("<r><b><![CDATA[" + fillTo(h.N, h.Unit) + "]]>" + fillTo(h.N, h.Unit) + "<![CDATA[" + fillTo(h.N, h.Unit) + "]]></b></r>" + pad)
	case "text pi text":
		return []byte("<r>" + fillTo(h.N, h.Unit) + "<?p v?>" + fillTo(h.N, h.Unit) + "<b/>" + pad + "</r>")
	case "elem":
		nm := "e" + fillTo(h.N-1, h.Unit)
		return []byte("<r>" + pad + "<" + nm + " a='1'>x</" + nm + "></r>")
	case "elem prefix":
		p := "p" + fillTo(h.N-1, h.Unit)
		nm := p + ":" + "e" + fillTo(h.M-1, h.Unit)
		return []byte("<r xmlns:" + p + "='u'><" + nm + "/>" + pad + "</r>")
	case "attr":
		return []byte("<r" + pad + " b='' " + "a" + fillTo(h.N-1, h.Unit) + "='1'/>")
	case "attr prefix":
		p := "p" + fillTo(h.N-1, h.Unit)
		return []byte("<r xmlns:" + p + "='u' " + pad + p + ":a" + fillTo(h.M-1, h.Unit) + "='1'/>")
	case "xmlns":
		return []byte("<r " + pad + "xmlns:a" + fillTo(h.N-7, h.Unit) + "='u'/>")
	case "value":
		return []byte("<r a='" + fillTo(h.N, h.Unit) + "' b='2'/>" + pad)
	case "uri":
		return []byte("<r xmlns:p='" + fillTo(h.N, h.Unit) + "'><p:a/></r>" + pad)
	case "pi target":
		return []byte("<r><?p" + fillTo(h.N-1, h.Unit) + " v?>" + pad + "</r>")
	case "pi value":
		return []byte("<r><?p " + fillTo(h.N, h.Unit) + "?>" + pad + "</r>")
	case "prolog pi":
		return []byte("<?p " + fillTo(h.N, h.Unit) + "?>" + pad + "<r/>")
	case "doctype":
		s := " r [<!--"
		e := "-->]"
		return []byte("<!DOCTYPE" + s + fillTo(h.N-len(s)-len(e), h.Unit) + e + ">" + pad + "<r/>")
	case "text":
		return []byte("<r>" + fillTo(h.N, h.Unit) + "<b>y</b>z</r>" + pad)
	case "cdata":
		return []byte("<r><![CDATA[" + fillTo(h.N, h.Unit) + "]]><b/></r>" + pad)
	case "comment":
		return []byte("<r><!--" + fillTo(h.N, h.Unit) + "--><!--x--></r>" + pad)
	case "trailing pi":
		return []byte("<r/>" + pad + "<?p " + fillTo(h.N, h.Unit) + "?>")
	case "prolog target":
		return []byte("<?p" + fillTo(h.N-1, h.Unit) + " v?>" + pad + "<r/>")
	case "trailing target":
		return []byte("<r/>" + pad + "<?p" + fillTo(h.N-1, h.Unit) + "?>")
	case "end space":
		return []byte("<r><b></b" + fillSpace(h.N, h.Unit) + "></r" + fillSpace(h.N, h.Unit) + ">" + pad)
	case "declaration":
		return []byte("<?xml version='1.0'" + fillSpace(h.N, h.Unit) + "encoding" + fillSpace(h.N, h.Unit) + "='utf-8'?><r/>" + pad)
	case "trailing comment":
		return []byte("<r/>" + pad + "<!--" + fillTo(h.N, h.Unit) + "-->")
	case "ws": // nothing else in the element
		return []byte(pad + "<r>" + fillSpace(h.N, h.Unit) + "</r>")
	case "between": // text of N bytes between two things
		v := len(hugeAround)
		return []byte("<r>" + hugeAround[h.M/v%v][0] + fillTo(h.N, h.Unit) + hugeAround[h.M%v][1] + pad + "</r>")
	default: // prolog comment
		return []byte(pad + "<!--" + fillTo(h.N, h.Unit) + "--><r/>")
	}
}

var hugeUnits = map[string][]string{
	"elem": {"x", "é", "日", "-"}, "elem prefix": {"x", "é", "𐀀"}, "attr": {"x", "é", "."}, "attr prefix": {"x", "日"}, "xmlns": {"x", "é"},
	"value": {"x", "é", "&amp;", "&#65;", "𐀀", "\n"}, "uri": {"x", "é", "&amp;"}, "pi target": {"x", "é"}, "pi value": {"x", "é", "?", "日\n"},
	"doctype": {"x", "é", "< "}, "text": {"x", "é", "日", "&amp;", "&#233;", "a b\n", "𐀀", "\r", "]"}, "cdata": {"x", "é", "]", "<&", "日\n"},
	"comment": {"x", "é", "日", "- ", "<&>"}, "prolog comment": {"x", "é", "\n"}, "prolog pi": {"x", "é"}, "depth": {""},
	"prolog target": {"x", "é"}, "trailing target": {"x", "-"}, "end space": {" ", "\n"}, "declaration": {"\n", " "},
	"depth empty": {""}, "depth prefix": {""}, "depth attr": {""}, "depth sibling": {""}, "depth late": {""}, "depth attrs deep": {""}, "elem empty": {"x", "é"}, "elem attr": {"x", "日"}, "elem prefix content": {"x", "é"},
	"elem second": {"x", "-"}, "attr second": {"x", "é"}, "attr xml prefix": {"x", "日"}, "xmlns second": {"x", "é"}, "default uri": {"x", "é"}, "prefixed value": {"x", "&lt;"}, "last value": {"x", "日"},
	"pi both": {"x", "é"}, "trailing pi both": {"x", "é"}, "prolog pi both": {"x", "é"}, "doctype system": {"x", " "}, "doctype name": {"x", "é"}, "doctype public": {"x", " "}, "twice": {"x", "é"}, "twice cdata": {"x", "]"}, "text pi text": {"x", "\n"},
	"trailing pi": {"x", "?", "é"}, "trailing comment": {"x", "- ", "é"}, "ws": {" ", "\n", "\r\t"}, "between": {"x", "é", "&lt;", "]", "\r", " y"},
}

// limitOf is the size up to which a kind is accepted; 0: any size.
func limitOf(kind string) int {
	if strings.HasPrefix(kind, "depth") {
		return refxml.MaxDepth
	}
	switch kind {
	case "elem", "attr", "xmlns", "elem empty", "elem attr", "elem second", "attr second", "attr xml prefix", "xmlns second":
		return refxml.MaxQName
	case "elem prefix", "attr prefix", "elem prefix content":
		return refxml.MaxPrefix
	case "text", "cdata", "comment", "prolog comment", "trailing comment", "ws", "between":
		return refxml.MaxToken // where splitting starts
	default:
		return refxml.MaxToken
	}
}

// prefixed: the kind has a prefix and a local name to measure.
func prefixed(kind string) bool {
	return kind == "elem prefix" || kind == "attr prefix" || kind == "elem prefix content"
}

// splitsLong: long values of the kind take several records.
func splitsLong(kind string) bool {
	switch kind {
	case "text", "cdata", "comment", "ws", "between", "prolog comment", "trailing comment", "twice", "twice cdata", "text pi text":
		return true
	}
	return false
}

func genHuge(t *rapid.T) *HugeCase {
	h := &HugeCase{Kind: pick(t, "depth", "elem", "elem prefix", "attr", "attr prefix", "xmlns"), NS: chance(t, 1, 2), LC: pick(t, 3, 5), Pad: n(t, 0, 3)}
	h.Unit = pick(t, hugeUnits[h.Kind]...)
	h.N = max(1, limitOf(h.Kind)+pick(t, 0, 1, -1, 2, n(t, -300, 300), n(t, 2, 3000)))
	if h.Kind == "depth" {
		h.N = max(1, refxml.MaxDepth+n(t, -3, 10))
	}
	if prefixed(h.Kind) {
		h.N = max(1, refxml.MaxPrefix+pick(t, 0, 0, 1, -1, n(t, -510, 20)))
		h.M = max(1, refxml.MaxQName-1-h.N+pick(t, 0, 0, 1, -1, n(t, -1500, 10)))
	}
	h.Kind = pick(t, h.Kind, pick(t, hugeKinds...))
	if u := hugeUnits[h.Kind]; limitOf(h.Kind) > 1<<16 {
		h.Kind = "elem"
	} else {
		h.Unit = u[0]
		if strings.HasPrefix(h.Kind, "depth") {
			h.N = max(2, refxml.MaxDepth+n(t, -9, 4))
		}
	}
	hugePlace(t, h)
	if chance(t, 1, 3) {
		h.Deep = deepOf(t)
	}
	if chance(t, 1, 6) {
		h.Pad = pick(t, 255, 256, 65530, 1<<20-3) + n(t, 0, 6)
	}
	return h
}

func hugePlace(t *rapid.T, h *HugeCase) {
	if chance(t, 1, 2) {
		h.Sur = n(t, 0, len(hugeSurs)-1)
	}
	h.Q = chance(t, 1, 3)
	if chance(t, 1, 4) {
		h.Win = pick(t, 1, 2, 255, 65536, 1<<20-2) - n(t, 0, 1)
	}
}

func deepOf(t *rapid.T) int {
	return pick(t, refxml.MaxDepth-1, refxml.MaxDepth-2, refxml.MaxDepth, refxml.MaxDepth-3, 127, 128, 1, 2, 3, 4, n(t, 1, 256))
}

// genVeryHuge sits around the token length limit, or far over it.
func genVeryHuge(t *rapid.T) *HugeCase {
	if chance(t, 1, 3) {
		return genHuge(t)
	}
	h := &HugeCase{NS: chance(t, 1, 2), LC: pick(t, 3, 5), Pad: n(t, 0, 3)}
	h.Kind = pick(t, "text", "cdata", "comment", "value", "pi value", "pi target", "doctype", "prolog comment", "prolog pi", "uri", "text", "cdata", "comment", "trailing pi", "trailing comment", "ws", "between", "between")
	if chance(t, 1, 3) {
		if k := pick(t, hugeKinds...); limitOf(k) > 1<<16 {
			h.Kind = k
		}
	}
	hugePlace(t, h)
	h.Unit = pick(t, hugeUnits[h.Kind]...)
	h.N = refxml.MaxToken + pick(t, 0, 1, -1, 2, n(t, -40, 40), n(t, -100000, 100000))
	if h.Kind == "between" {
		h.M = n(t, 0, len(hugeAround)*len(hugeAround)-1)
	}
	if splitsLong(h.Kind) {
		h.N = pick(t, 1, 1, 2, 3)*refxml.MaxToken + pick(t, 0, 1, 2, -1, 3, n(t, -40, 40))
	}
	if chance(t, 1, 4) {
		h.Deep = deepOf(t)
	}
	return h
}

func checkHuge(c *Ctx, v any) error {
	h := v.(*HugeCase)
	if h.N < 0 || h.N > 1<<24 || h.M > 1<<20 {
		return nil
	}
	doc := hugeDoc(h)
	r := refxml.Parse(doc)
	c.NonTrivial()
	c.Label(h.Kind + ": " + r.Verdict.String())
	if r.Verdict == refxml.Unclaimed || (h.NS && r.NS != refxml.Accept) {
		c.Label("unclaimed")
		return nil
	}
	var nav *navigation.VtdNav
	var err error
	if h.Win > 0 && h.Win < 1<<20 {
		nav, err = parseWin([]byte(rep("<", h.Win)+string(doc)+"></r>"), h.Win, len(doc), Opts{NS: h.NS, LC: h.LC})
		c.Label("window")
	} else {
		nav, err = parse(doc, Opts{NS: h.NS, LC: h.LC})
	}
	record := func(nav *navigation.VtdNav, i int) (Rec, error) {
		r, err := record(nav, i)
		if common.Token(r.Type) != common.TokenDocument {
			r.Off -= int32(h.Win)
		}
		return r, err
	}
	if (err == nil) != (r.Verdict == refxml.Accept) {
		return fmt.Errorf("%s of %d (and %d): error %v, want %s %s", h.Kind, h.N, h.M, err, r.Verdict, r.Reason)
	}
	if err != nil {
		if !typed(err) {
			return fmt.Errorf("%s of %d (and %d): untyped error %v", h.Kind, h.N, h.M, err)
		}
		return nil
	}
	// the tokens, with long values in several records
	i, size := 0, nav.GetVtdBufferSize()
	for _, t := range r.Toks {
		if i >= size {
			return fmt.Errorf("token missing: %s", fmtTok(t))
		}
		rec, err := record(nav, i)
		if err != nil {
			return err
		}
		if e := compareTok(t, rec, h.NS); e != nil {
			return fmt.Errorf("token %d: %w", i, e)
		}
		c.Evals(1)
		splits := t.Kind == refxml.Text || t.Kind == refxml.Cdata || t.Kind == refxml.Comment
		if t.Kind != refxml.Document {
			src := doc[t.Off : t.Off+t.Len]
			want := string(refxml.NormalizeEOL(src))
			if t.Kind == refxml.Text || t.Kind == refxml.AttrVal {
				want = resolved(src)
			}
			got, err := nav.ToStringAtIndex(i)
			if err != nil || got != want {
				return fmt.Errorf("token %d (%s) reads back as %d bytes %q (error %v), want %d bytes %q", i, fmtTok(t), len(got), trunc(got, 60), err, len(want), trunc(want, 60))
			}
			raw, err := nav.ToRawStringAtIndex(i)
			if want := refxml.NormalizeEOL(src); err != nil || raw != want {
				return fmt.Errorf("token %d (%s) reads back raw as %d bytes %q (error %v), want %d bytes", i, fmtTok(t), len(raw), trunc(raw, 60), err, len(want))
			}
		}
		i++
		if !splits || t.Len <= refxml.MaxToken {
			continue
		}
		// the further records of the value
		end, prev, cnt := t.Off+t.Len, t.Off, 1
		for prev+refxml.MaxToken < end {
			if i >= size {
				return fmt.Errorf("the records of %s end at byte %d at most", fmtTok(t), prev+refxml.MaxToken)
			}
			rec, err := record(nav, i)
			if err != nil {
				return err
			}
			if common.Token(rec.Type) != tokenOf[t.Kind] || int(rec.Depth) != t.Depth {
				return fmt.Errorf("record %d of %s is %+v", cnt, fmtTok(t), rec)
			}
			if int(rec.Off) <= prev || int(rec.Off) > prev+refxml.MaxToken || int(rec.Off)+int(rec.Len) != end {
				return fmt.Errorf("record %d of %s is %+v: it does not follow on byte %d or does not reach to the end", cnt, fmtTok(t), rec, prev)
			}
			prev = int(rec.Off)
			i++
			cnt++
		}
		c.Label(fmt.Sprintf("%s in %d records", t.Kind, cnt))
	}
	if i != size {
		return fmt.Errorf("%d surplus tokens", size-i)
	}
	return nil
}

func hugeFixed(tier string) []any {
	var out []any
	for _, kind := range hugeKinds {
		units := hugeUnits[kind]
		for k, u := range units {
			if k > 1 && tier != "thorough" {
				break
			}
			for _, d := range []int{-2, -1, 0, 1, 2} {
				h := &HugeCase{Kind: kind, N: limitOf(kind) + d, Unit: u, NS: (k+d)%2 == 0, LC: 3 + 2*(d&1)}
				if prefixed(kind) {
					h.M = 1
					h2 := *h
					h2.N, h2.M = 3, refxml.MaxQName-4+d
					h3 := *h
					h3.N, h3.M = refxml.MaxPrefix, refxml.MaxQName-1-refxml.MaxPrefix+d
					h4 := h3
					h4.NS = !h3.NS
					out = append(out, &h2, &h3, &h4)
				}
				if splitsLong(kind) {
					h2 := *h
					h2.N = 2*refxml.MaxToken + d
					out = append(out, &h2)
				}
				if limitOf(kind) < 1<<16 && !strings.HasPrefix(kind, "depth") {
					// at the deepest places, too
					for _, deep := range []int{refxml.MaxDepth - 2, refxml.MaxDepth - 1, refxml.MaxDepth} {
						for _, ns := range []bool{false, true} {
							h6 := *h
							h6.Deep, h6.NS = deep, ns
							h7 := h6
							if h6.M > 0 {
								h7.N, h7.M = refxml.MaxPrefix, refxml.MaxQName-1-refxml.MaxPrefix+d
							}
							out = append(out, &h6, &h7)
						}
					}
				}
				h5 := *h
				h5.NS, h5.LC = !h.NS, 8-h.LC
				out = append(out, h)
				if tier == "thorough" || limitOf(kind) < 1<<16 {
					out = append(out, &h5)
				}
			}
		}
	}
	// in other surroundings
	for i, kind := range hugeKinds {
		for su := 0; su < len(hugeSurs)+3; su++ {
			for j, d := range []int{-1, 0, 1} {
				if limitOf(kind) > 1<<16 && tier != "thorough" && (i+su+j)%2 == 0 && su < len(hugeSurs) {
					continue
				}
				h := &HugeCase{Kind: kind, N: limitOf(kind) + d, Unit: hugeUnits[kind][0], NS: (i+su)%3 != 0, LC: 3 + 2*((i+j)&1), Sur: su, Q: (i+su+j)%3 == 0}
				if su >= len(hugeSurs) {
					h.Sur, h.Win = i%3, []int{1, 1000, 65533}[su-len(hugeSurs)]
				}
				if strings.HasPrefix(kind, "depth") && hugeSurs[h.Sur].root {
					h.N -= strings.Count(hugeSurs[h.Sur].pre, "<w") + strings.Count(hugeSurs[h.Sur].pre, "<c>")
				}
				if prefixed(kind) {
					h.M = 1
					h2 := *h
					h2.N, h2.M = refxml.MaxPrefix, refxml.MaxQName-1-refxml.MaxPrefix+d
					h3 := *h
					h3.N, h3.M = 2, refxml.MaxQName-3+d
					out = append(out, &h2, &h3)
				}
				out = append(out, h)
			}
		}
	}
	// sizes that are limits of something else
	for i, kind := range hugeKinds {
		for j, size := range []int{255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 262144, 524287, 524288, 524289, 1 << 21, 1<<21 - 1} {
			u := hugeUnits[kind]
			h := &HugeCase{Kind: kind, N: size, Unit: u[(i+j)%len(u)], NS: (i+j)%2 == 0, LC: 3 + 2*(j&1)}
			if kind == "between" {
				h.M = j
			}
			if prefixed(kind) {
				h.M = 1
				out = append(out, &HugeCase{Kind: kind, N: 3, M: size, Unit: h.Unit, NS: !h.NS})
			}
			if size < 3000 || (i+j)%4 == 0 || tier == "thorough" {
				out = append(out, h)
			}
		}
	}
	for m := 0; m < len(hugeAround)*len(hugeAround); m++ {
		for _, d := range []int{0, 1} {
			if (m+d)%4 != 0 && tier != "thorough" {
				continue
			}
			u := hugeUnits["between"]
			out = append(out, &HugeCase{Kind: "between", N: (1+m%2)*refxml.MaxToken + d, M: m, Unit: u[m%len(u)], LC: 3 + 2*d, NS: m%3 == 0})
		}
	}
	for _, k := range []string{"text", "cdata", "comment"} {
		for _, m := range []int{3, 4, 5, 9, 17, 33} {
			out = append(out, &HugeCase{Kind: k, N: m * refxml.MaxToken, Unit: "x"}, &HugeCase{Kind: k, N: m*refxml.MaxToken + 1, Unit: "é"})
		}
	}
	return out
}

// ---------------------------------------------------------------- C11 XML declaration

func genDecl(t *rapid.T) []byte {
	var b bytes.Buffer
	sp := func(req bool) {
		k := n(t, 0, 19)
		switch {
		case k == 0 && req: // missing space
		case k == 1:
			b.WriteString("\n")
		case k == 2:
			b.WriteString("\t \r\n")
		case k == 3 && !req, k >= 4 && req:
			b.WriteString(" ")
		case k == 4:
			b.WriteString("\u00a0")
		default:
			if req {
				b.WriteString(" ")
			}
		}
	}
	odd := func() bool { return chance(t, 1, 14) }
	if chance(t, 1, 6) {
		b.WriteString("\xef\xbb\xbf")
	}
	if chance(t, 1, 40) {
		b.WriteString(pick(t, " ", "\n", "<!---->", "x", "<?p?>"))
	}
	attr := func(name string, vals, bad []string) {
		if odd() {
			name = pick(t, strings.ToUpper(name), name+"x", name[:len(name)-1], "", " "+name, name[:1])
		}
		b.WriteString(name)
		sp(false)
		b.WriteString(pick(t, "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "=", "", ":", "=="))
		sp(false)
		q := pick(t, "'", "\"")
		q2 := q
		if odd() {
			q2 = pick(t, "'", "\"", "")
		}
		if odd() && chance(t, 1, 2) {
			q = ""
		}
		v := pick(t, vals...)
		if chance(t, 1, 8) {
			v = pick(t, bad...)
		}
		if chance(t, 1, 25) {
			var u []byte
			for k := range v {
				u = append(u, pick(t, strings.ToUpper(v[k:k+1]), strings.ToLower(v[k:k+1]))...)
			}
			v = string(u)
		}
		if chance(t, 1, 40) && v != "" {
			i := n(t, 0, len(v)-1)
			v = pick(t, v[:i]+v[i+1:], v[:i]+"x"+v[i:], " "+v, v+" ", v+"1", strings.ToUpper(v), strings.ToLower(v))
		}
		b.WriteString(q + v + q2)
	}
	b.WriteString(pick(t, "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?xml", "<?XML", "<? xml", "<?xm", "<?xmlx", "<?Xml", "<xml"))
	sp(true)
	order := []int{0, 1, 2}
	if odd() {
		order = pick(t, []int{1, 0, 2}, []int{0, 2, 1}, []int{0, 0}, []int{1}, []int{2}, []int{0, 1, 1}, []int{0, 2, 2}, nil, []int{0, 1, 2, 2})
	}
	for _, k := range order {
		switch k {
		case 0:
			attr("version", []string{"1.0", "1.0", "1.1"}, []string{"1.2", "2.0", "1", "", "1.", "1.00", "0.9", "1.0.", "10", "1,0", "1.10"})
			sp(true)
		case 1:
			if chance(t, 2, 3) {
				attr("encoding", []string{"UTF-8", "utf-8", "ASCII", "ascii", "US-ASCII", "us-ascii"}, []string{"UTF-16", "utf-16", "UTF-16LE", "utf-16BE", "ISO-8859-1", "iso-8859-15", "windows-1252", "cp1252", "UTF8", "", "utf-", "UTF-88", "latin1", "US_ASCII", "usascii", "ASCI", "ascii8", "iso-8859-2", "iso-10646-ucs-2", "utf-7", "utf-80", "us-asci", "x"})
				sp(true)
			}
		case 2:
			if chance(t, 1, 2) {
				attr("standalone", []string{"yes", "no"}, []string{"Yes", "NO", "true", "", "y", "n", "yess", "noo", "no ", "1"})
				sp(false)
			}
		}
	}
	if odd() {
		b.WriteString(pick(t, " x='1'", "x", "?", "&amp;", "<", "version='1.0'", " encoding='UTF-8'", "\x00", "é"))
	}
	b.WriteString(pick(t, "?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", "?>", ">", "? >", "??>", "?", "/>", ""))
	if chance(t, 1, 3) {
		b.WriteString(pick(t, "\n", " ", "<!--c-->", "<?p?>", "\r\n", "<?xml version='1.0'?>", "<!DOCTYPE a>"))
	}
	b.WriteString(pick(t, "<a/>", "<a></a>", "<a b='c'>d</a>", "<a>é</a>", "<é/>", "<a b='é'/>", "<a>\x80</a>", "<a>&#233;</a>", "<!--é--><a/>", "<?p é?><a/>", "<a><![CDATA[é]]></a>", "<a>\x7f</a>", "<a/>é", "<a é='1'/>", "<a xmlns:p='é'/>"))
	out := b.Bytes()
	if chance(t, 1, 30) {
		var u []byte
		le := chance(t, 1, 2)
		if chance(t, 2, 3) {
			if le {
				u = append(u, 0xFF, 0xFE)
			} else {
				u = append(u, 0xFE, 0xFF)
			}
		}
		for _, c := range out {
			if le {
				u = append(u, c, 0)
			} else {
				u = append(u, 0, c)
			}
		}
		return u
	}
	if chance(t, 1, 60) && len(out) > 3 {
		return append([]byte(pick(t, "\xef", "\xef\xbb", "\xef\xbb\xbf\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x00", "\x00<", "<\x00", "\xbf", "\xef\xbb<")), out...)
	}
	return out
}

func checkDecl(c *Ctx, doc []byte) error {
	r := refxml.Parse(doc)
	c.Label("verdict: " + r.Verdict.String())
	if r.Version != "" {
		c.NonTrivial()
	}
	if r.Verdict == refxml.Unclaimed {
		return nil
	}
	for _, ns := range []bool{false, true} {
		if ns && r.NS != refxml.Accept {
			continue
		}
		c.Evals(1)
		nav, err := parse(doc, Opts{NS: ns})
		if r.Verdict == refxml.Reject {
			if err == nil {
				return fmt.Errorf("accepted (ns=%v) although: %s at byte %d\ndoc %s", ns, r.Reason, r.E, show(doc))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("rejected (ns=%v): %v\ndoc %s", ns, err, show(doc))
		}
		want := common.FormatUtf8
		if r.Ascii {
			want = common.FormatAscii
			c.Label("ascii accepted")
		}
		if nav.GetEncoding() != want {
			return fmt.Errorf("GetEncoding gives %v, want %v\ndoc %s", nav.GetEncoding(), want, show(doc))
		}
		if err := compareTokens(c, r, nav, ns); err != nil {
			return fmt.Errorf("ns=%v: %w\ndoc %s", ns, err, show(doc))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C13 windows

// WinCase parses a window of a buffer.
type WinCase struct {
	Buf   Blob  `json:"buf"`
	Off   int   `json:"off"`
	Len   int   `json:"len"`
	O     Opts  `json:"o"`
	Moves []int `json:"moves,omitempty"`
	All   bool  `json:"all,omitempty"`  // every window of the buffer
	High  int   `json:"high,omitempty"` // the buffer lies in a large one, the window at this place
	Part  *Part `json:"part,omitempty"` // instead: windows of many small documents
}

// winAround are bytes before and behind a window.
var winAround = [][2]string{{"<r>", "</r>"}, {"\xef\xbb\xbf", "\n<!--"}, {"<?xml version='1.0' encoding='us-ascii'?>", "]]>"}, {"\n\n", "\xa9"}, {"\xc3", "?>"}, {"&#", ";"}, {"<", ">"}, {"<!DOCTYPE r [", "]>"}, {"x", "-->"}, {"", "'/>"}, {"</", ""}}

func genWin(t *rapid.T) any {
	wc := &WinCase{O: Opts{NS: chance(t, 1, 2), LC: pick(t, 3, 5), Reuse: chance(t, 1, 4)}}
	var doc []byte
	switch weighted(t, 6, 3, 2, 1) {
	case 0:
		doc = genDoc(t, DocCfg{NS: chance(t, 3, 4)})
	case 1:
		doc = genBroken(t)
	case 2:
		doc = genSoup(t)
	default:
		doc = genDecl(t)
	}
	if len(doc) == 0 {
		doc = []byte("<a/>")
	}
	around := []string{"", "", "<", ">", "<a>", "</a>", "<!--", "-->", "\xef\xbb\xbf", "\xc3", "\xa9", "]]>", "]", "&", "&amp", ";", "amp;", "<?", "?>", "x", " ", "\n", "\r", "<a xmlns:p='u'>", "'", "\"", "\x00", "<?xml version='1.0' encoding='ascii'?>", "<r><p:q/>", "\xff\xfe", "-", "--", "?", "!", "a", "=", "é", "<![CDATA[", "[", "/", "/>", "\n\n\n", "<b/>", "<!DOCTYPE a>"}
	switch n(t, 0, 4) {
	case 0, 1: // anything around a whole document
		pre := pick(t, around...) + pick(t, around...)
		post := pick(t, around...) + pick(t, around...)
		wc.Buf = append(append([]byte(pre), doc...), post...)
		wc.Off, wc.Len = len(pre), len(doc)
	case 2: // the rest of the document just behind the window
		wc.Buf = doc
		wc.Len = n(t, 1, len(doc))
		if chance(t, 1, 2) { // cut inside the tail
			wc.Len = max(1, len(doc)-n(t, 0, 8))
		}
	case 3: // any part of a document
		wc.Buf = doc
		wc.Off = n(t, 0, len(doc)-1)
		wc.Len = n(t, 1, len(doc)-wc.Off)
	default: // two documents next to each other
		d2 := genDoc(t, DocCfg{NS: true, Budget: 5})
		wc.Buf = append(append([]byte(nil), d2...), doc...)
		wc.Off, wc.Len = len(d2), len(doc)
		if chance(t, 1, 2) {
			wc.Off, wc.Len = 0, len(d2)
		}
	}
	if chance(t, 1, 10) {
		l := len(wc.Buf)
		wc.Off = pick(t, n(t, -2, l+2), -1, l, l+1, math.MaxInt64, math.MinInt64, 0)
		wc.Len = pick(t, l-wc.Off+1, n(t, -2, l+2), math.MaxInt64, math.MaxInt64-wc.Off+1, math.MinInt64, -1, 0, l+1)
	}
	for k := n(t, 0, 12); k > 0; k-- {
		wc.Moves = append(wc.Moves, pick(t, 2, 4, 3, 5, 1, 0))
	}
	if wc.Off >= 0 && wc.Len > 0 && wc.Len <= len(wc.Buf)-wc.Off && wc.Off <= len(wc.Buf) && chance(t, 1, 6) {
		wc.High = 1<<n(t, 15, 31) + pick(t, 0, -1, -wc.Len, -wc.Len/2, -wc.Len-1, -n(t, 0, 100), n(t, 0, 1<<14))
	}
	return wc
}

// A large buffer of which only the pages written to exist.
const arenaSize = 1<<31 + 1<<17

var arenaBytes []byte

func arena() []byte {
	if arenaBytes == nil {
		m, err := syscall.Mmap(-1, 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			return nil
		}
		arenaBytes = m
	}
	return arenaBytes
}

// sizeLimit is the place up to which documents may reach.
func sizeLimit(ns bool) int {
	if ns {
		return 1 << 30
	}
	return 1 << 31
}

// tooBig recognises the error about documents that reach beyond the limit.
func tooBig(err error) bool {
	var e *erroring.InternalError
	return errors.As(err, &e) && strings.Contains(err.Error(), "too big")
}

// checkHigh compares a window at a high place of a large buffer with a copy.
func checkHigh(c *Ctx, wc *WinCase) error {
	m := arena()
	if m == nil {
		c.Label("no large buffer")
		return nil
	}
	if wc.Off < 0 || wc.Len <= 0 || wc.Off > len(wc.Buf) || wc.Len > len(wc.Buf)-wc.Off || wc.High < wc.Off || wc.High-wc.Off+len(wc.Buf) > len(m) {
		return nil
	}
	c.NonTrivial()
	c.Label(fmt.Sprintf("high window: around 2^%d", bits.Len(uint(wc.High+(1<<14)))-1))
	place := m[wc.High-wc.Off:][:len(wc.Buf)]
	copy(place, wc.Buf)
	defer clear(place)
	slice := append([]byte(nil), wc.Buf[wc.Off:wc.Off+wc.Len]...)
	run := func(buf []byte, off int) (string, error) {
		nav, err := parseWin(buf, off, wc.Len, wc.O)
		if err != nil {
			line, e2 := lineOf(err)
			return fmt.Sprintf("rejected %s, line %d %v", errText(err), line, e2), err
		}
		vs := &visitor{}
		vs.tokens(nav, off)
		for _, m := range wc.Moves {
			vs.step(nav, m)
		}
		return vs.text(), nil
	}
	c.Evals(1)
	a, aerr := run(m, wc.High)
	if wc.High+wc.Len >= sizeLimit(wc.O.NS) {
		c.Label("beyond the size limit")
		if aerr == nil || !typed(aerr) {
			return fmt.Errorf("the window [%d,%d) reaches beyond the size limit: want an error, got %v\nbuffer %s", wc.High, wc.High+wc.Len, aerr, show(wc.Buf))
		}
		return nil
	}
	if b, _ := run(slice, 0); a != b {
		return fmt.Errorf("the window [%d,%d) of a large buffer gives another result than its copy: %s\nbuffer %s", wc.High, wc.High+wc.Len, firstDiff(a, b), show(wc.Buf))
	}
	return nil
}

var lineRe = regexp.MustCompile(`^\nLine number: (\d+) Offset: (-?\d+)$`)

// lineOf extracts the line of a parse error; 0: it carries none.
func lineOf(err error) (int, error) {
	var pe *erroring.ParseError
	if !errors.As(err, &pe) || pe.LineNumber == "" {
		return 0, nil
	}
	m := lineRe.FindStringSubmatch(pe.LineNumber)
	if m == nil {
		return 0, fmt.Errorf("malformed position %q", pe.LineNumber)
	}
	k, err := strconv.Atoi(m[1])
	return k, err
}

func checkWin(c *Ctx, v any) error {
	wc := v.(*WinCase)
	if wc.Part != nil {
		return wc.Part.run(c, func(doc []byte, k int) any {
			if len(doc) == 0 {
				return nil
			}
			a := winAround[k%len(winAround)]
			one := &WinCase{Buf: Blob(a[0] + string(doc) + a[1]), Off: len(a[0]), Len: len(doc), O: Opts{NS: k%3 == 0, LC: 3 + 2*(k%2)}, Moves: wc.Moves}
			if k%5 == 4 {
				one.High = 1<<(16+k/5%16) - k/80%(len(doc)+2)
			}
			return one
		}, checkWin)
	}
	if wc.High > 0 {
		return checkHigh(c, wc)
	}
	if wc.All {
		c.Label("every window")
		for o := 0; o < len(wc.Buf) && len(wc.Buf) < 300; o++ {
			for l := 1; o+l <= len(wc.Buf); l++ {
				one := *wc
				one.Off, one.Len, one.All = o, l, false
				sub := &Ctx{}
				if err := guard(func() error { return checkWin(sub, &one) }); err != nil {
					return &caseErr{&one, err}
				}
				c.Evals(sub.evals)
			}
		}
		c.NonTrivial()
		return nil
	}
	if wc.Buf == nil {
		wc.Buf = Blob{}
	}
	l := len(wc.Buf)
	p, err := parser.NewVtdParser(append([]parser.Option{parser.WithXmlDocCustomOffset(wc.Buf, wc.Off, wc.Len)}, wc.O.list()...)...)
	if wc.Off < 0 || wc.Len < 0 || wc.Off > l || wc.Len > l-wc.Off {
		c.Label("window outside the buffer")
		if err == nil || p != nil {
			return fmt.Errorf("window at %d of length %d in %d bytes is not refused (error %v)", wc.Off, wc.Len, l, err)
		}
		if !typed(err) {
			return fmt.Errorf("window at %d of length %d in %d bytes: untyped error %v", wc.Off, wc.Len, l, err)
		}
		return nil
	}
	if wc.Len == 0 {
		if err == nil {
			err = p.Parse()
		}
		if err == nil {
			return fmt.Errorf("an empty window is accepted")
		}
		return nil
	}
	if wc.Off > 0 || wc.Len < l {
		c.NonTrivial()
	}
	run := func(buf []byte, off int) string {
		nav, err := parseWin(buf, off, wc.Len, wc.O)
		if err != nil {
			line, e2 := lineOf(err)
			return fmt.Sprintf("rejected %s, line %d %v", errText(err), line, e2)
		}
		vs := &visitor{}
		vs.tokens(nav, off)
		for _, m := range wc.Moves {
			vs.step(nav, m)
		}
		return vs.text()
	}
	c.Evals(2)
	slice := append([]byte(nil), wc.Buf[wc.Off:wc.Off+wc.Len]...)
	a := run(wc.Buf, wc.Off)
	b := run(slice, 0)
	if strings.HasPrefix(b, "rejected") {
		c.Label("rejected")
	} else {
		c.Label("accepted")
	}
	if a != b {
		return fmt.Errorf("the window [%d,%d) gives another result than its copy: %s\nbuffer %s", wc.Off, wc.Off+wc.Len, firstDiff(a, b), show(wc.Buf))
	}
	// and with other bytes around it
	other := bytes.Repeat([]byte{'<'}, l+7)
	copy(other[wc.Off:], slice)
	if d := run(other, wc.Off); d != b {
		return fmt.Errorf("the window [%d,%d) surrounded by '<' gives another result than its copy: %s\nbuffer %s", wc.Off, wc.Off+wc.Len, firstDiff(d, b), show(wc.Buf))
	}
	return nil
}

// ---------------------------------------------------------------- C14 options

// OptCase parses one document with options in several orders.
type OptCase struct {
	Doc    Blob  `json:"doc"`
	Orders []int `json:"orders"`
	LCs    []int `json:"lcs,omitempty"`
	Moves  []int `json:"moves,omitempty"`
	Part   *Part `json:"part,omitempty"` // instead: many small documents
}

func permute(os []AnyOpt, k int) []AnyOpt {
	rest := append([]AnyOpt(nil), os...)
	var out []AnyOpt
	for len(rest) > 0 {
		i := k % len(rest)
		k /= len(rest)
		out = append(out, rest[i])
		rest = append(rest[:i], rest[i+1:]...)
	}
	return out
}

func checkOpts(c *Ctx, v any) error {
	oc := v.(*OptCase)
	if oc.Part != nil {
		return oc.Part.run(c, func(doc []byte, k int) any {
			return &OptCase{Doc: doc, Orders: oc.Orders, LCs: [][]int{{3, 5}, {5, 0}}[k%2], Moves: oc.Moves}
		}, checkOpts)
	}
	if len(oc.Doc) == 0 {
		return nil
	}
	lcs := oc.LCs
	if len(lcs) == 0 {
		lcs = []int{3, 5}
	}
	// verdict, tokens without prefix lengths, and moves
	run := func(opts []AnyOpt) (string, string) {
		nav, err := parseOpts(anyOpts(oc.Doc, opts)...)
		if err != nil {
			line, e2 := lineOf(err)
			return "rejected", fmt.Sprintf("%s, line %d %v", errText(err), line, e2)
		}
		vs := &visitor{}
		vs.tokens(nav, 0)
		for _, m := range oc.Moves {
			vs.step(nav, m)
		}
		return "accepted", vs.text()
	}
	plain := func(s string, ns bool) string {
		if !ns {
			return s
		}
		lines := strings.Split(s, "\n")
		for i, l := range lines {
			// name records: fold the prefix length away
			var k, ty, off, ln, dp int
			if n, _ := fmt.Sscanf(l, "%d: {Type:%d Off:%d Len:%d Depth:%d}", &k, &ty, &off, &ln, &dp); n == 5 && (ty == 0 || ty == 2 || ty == 3) {
				lines[i] = strings.Replace(l, fmt.Sprintf(" Len:%d ", ln), fmt.Sprintf(" Len:%d ", ln&0xFFFF), 1)
			}
		}
		return strings.Join(lines, "\n")
	}
	var verdicts, results [2]string
	for nsi, ns := range []bool{false, true} {
		for i, lc := range lcs {
			for j, ord := range append([]int{0}, oc.Orders...) {
				opts := []AnyOpt{{Op: "doc"}, {Op: "ns", On: ns}, {Op: "lc", A: lc}}
				if (i+j)%2 == 1 {
					opts = append(opts, AnyOpt{Op: "reuse", On: j%3 != 1})
				}
				if j > 0 && ord%5 == 4 {
					opts = append(opts, AnyOpt{Op: "doc"})
				}
				if j > 0 && ord%5 == 2 {
					// the document again, as a window
					opts = append(opts, AnyOpt{Op: "win", B: len(oc.Doc)})
				}
				if j > 0 && ord%5 == 3 {
					opts[0] = AnyOpt{Op: "win", B: len(oc.Doc)}
				}
				if !ns && j > 0 && ord%7 == 3 {
					opts = opts[:0:0]
					opts = append(opts, AnyOpt{Op: "lc", A: lc}, AnyOpt{Op: "doc"}) // namespace awareness is off by default
				}
				opts = permute(opts, ord)
				if j > 0 && ord%11 == 5 {
					// the last document, depth and awareness count
					opts = append([]AnyOpt{{Op: "nildoc"}, {Op: "lc", A: 8 - lc}, {Op: "ns", On: !ns}, {Op: "win", A: len(oc.Doc) / 2, B: len(oc.Doc) - len(oc.Doc)/2}}, append(opts, AnyOpt{Op: "ns", On: ns})...)
				}
				ve, re := run(opts)
				c.Evals(1)
				if i == 0 && j == 0 {
					verdicts[nsi], results[nsi] = ve, re
					continue
				}
				if ve != verdicts[nsi] || re != results[nsi] {
					return fmt.Errorf("options %v give another result than document, namespaces %v, cache depth %d: %s\ndoc %s", opts, ns, lcs[0], firstDiff(ve+"\n"+re, verdicts[nsi]+"\n"+results[nsi]), show(oc.Doc))
				}
			}
		}
	}
	if verdicts[1] == "accepted" {
		c.NonTrivial()
		if verdicts[0] != "accepted" {
			return fmt.Errorf("accepted with namespaces, rejected without: %s\ndoc %s", results[0], show(oc.Doc))
		}
		if a, b := plain(results[1], true), results[0]; a != b {
			return fmt.Errorf("namespace awareness changes the tokens: %s\ndoc %s", firstDiff(a, b), show(oc.Doc))
		}
	}
	c.Label(verdicts[0] + " / with namespaces " + verdicts[1])
	return nil
}

// ---------------------------------------------------------------- C15 purity

// Job is a document parsed and walked; every step is atomic.
type Job struct {
	Doc   Blob  `json:"doc"`
	O     Opts  `json:"o"`
	Moves []int `json:"moves,omitempty"`
	Share int   `json:"share,omitempty"` // k > 0: uses the bytes of job k-1
	Twin  bool  `json:"twin,omitempty"`  // uses the parser of job Share-1
	Every int   `json:"every,omitempty"` // tokens read between two moves

	Reads [][2]int32 `json:"reads,omitempty"` // ranges read at the end
}

// PureCase is several jobs and the order of their steps.
type PureCase struct {
	Jobs  []Job `json:"jobs"`
	Order []int `json:"order,omitempty"`
	Part  *Part `json:"part,omitempty"` // instead: one job on each of many small documents

	// Near are documents that hardly differ from that of the first job: each is parsed and
	// walked behind different ones of the others.
	Near []Blob `json:"near,omitempty"`
}

// runner performs a job step by step.
type runner struct {
	job *Job
	doc []byte
	p   *parser.VtdParser
	nav *navigation.VtdNav
	of  *runner // whose parser is used
	vis visitor
	pc  int
	tok int
	err error
	bad error
}

// step does the next step; false: the job is done.
func (r *runner) step() bool {
	r.pc++
	switch r.pc {
	case 1:
		if r.of != nil {
			r.p, r.err = r.of.p, r.of.err
		} else {
			r.p, r.err = parser.NewVtdParser(append([]parser.Option{parser.WithXmlDoc(r.doc)}, r.job.O.list()...)...)
		}
		r.vis.say("new %s", errText(r.err))
		return r.err == nil
	case 2:
		if r.of == nil {
			r.err = r.p.Parse()
			line, _ := lineOf(r.err)
			r.vis.say("parse %s line %d", errText(r.err), line)
		}
		return r.err == nil
	case 3:
		r.nav, r.err = r.p.GetNav()
		r.vis.say("nav %s", errText(r.err))
		if r.err == nil {
			_, e1 := modifier.NewXmlModifier(modifier.WithNavigation(r.nav))
			_, e2 := pilot.NewAutoPilot(pilot.WithNavigation(r.nav), pilot.WithCaching(r.job.Every%2 == 0))
			r.vis.say("modifier %s, pilot %s", errText(e1), errText(e2))
		}
		return r.err == nil
	}
	k := r.pc - 4
	if k >= len(r.job.Moves) && r.tok >= r.nav.GetVtdBufferSize() {
		r.readBack()
		return false
	}
	if k < len(r.job.Moves) {
		r.vis.step(r.nav, r.job.Moves[k])
	}
	size := r.nav.GetVtdBufferSize()
	for e := max(1, r.job.Every); e > 0 && r.tok < size; e-- {
		rec, err := record(r.nav, r.tok)
		s, err2 := r.nav.ToStringAtIndex(r.tok)
		w, err3 := r.nav.ToRawStringAtIndex(r.tok)
		r.vis.say("%d: %+v %s | %q %s | %q %s", r.tok, rec, errText(err), s, errText(err2), w, errText(err3))
		r.tok++
	}
	return true
}

// readBack reads ranges, and the tokens once more from the last one on, from the object
// that has been used and from fresh ones: they must agree.
func (r *runner) readBack() {
	fresh, err := r.p.GetNav()
	if err != nil {
		r.vis.say("second nav %s", errText(err))
		return
	}
	type read struct {
		rec    Rec
		s, raw string
		errs   string
	}
	at := func(nav *navigation.VtdNav, rd [2]int32) (x read) {
		var e1, e2 error
		if rd[1] >= 0 {
			x.s, e1 = nav.ToStringAtRange(rd[0], rd[1])
			x.raw, e2 = nav.ToRawStringAtRange(rd[0], rd[1])
		} else {
			x.rec, _ = record(nav, int(rd[0]))
			x.s, e1 = nav.ToStringAtIndex(int(rd[0]))
			x.raw, e2 = nav.ToRawStringAtIndex(int(rd[0]))
		}
		x.errs = errText(e1) + ", " + errText(e2)
		return x
	}
	list := append([][2]int32(nil), r.job.Reads...)
	for i := r.nav.GetVtdBufferSize() - 1; i >= 0 && len(list) > 0 && len(list) < 2000; i-- {
		list = append(list, [2]int32{int32(i), -1})
	}
	// first all from one object, then all from the other, in another order
	first := make([]read, len(list))
	for k, rd := range list {
		first[k] = at(r.nav, rd)
	}
	for k := range list {
		k = len(list) - 1 - k
		if k%16 == 7 {
			if fresh, err = r.p.GetNav(); err != nil {
				r.vis.say("nav %d %s", k, errText(err))
				return
			}
		}
		if a, b := first[k], at(fresh, list[k]); a != b {
			what := fmt.Sprintf("the range at %d of %d bytes", list[k][0], list[k][1])
			if list[k][1] < 0 {
				what = fmt.Sprintf("token %d", list[k][0])
			}
			r.bad = fmt.Errorf("%s reads as %+v %q, raw %q, errors %s, in one history and as %+v %q, raw %q, errors %s, in another", what, a.rec, trunc(a.s, 200), trunc(a.raw, 200), a.errs, b.rec, trunc(b.s, 200), trunc(b.raw, 200), b.errs)
			return
		}
	}
}

// genReads draws ranges, several of them from one place.
func genReads(t *rapid.T, l int) [][2]int32 {
	var out [][2]int32
	for k := n(t, 0, 6); k > 0; k-- {
		o := n(t, 0, l)
		if chance(t, 1, 2) && len(out) > 0 {
			o = int(out[len(out)-1][0])
		}
		for j := n(t, 1, 4); j > 0; j-- {
			out = append(out, [2]int32{int32(o), int32(pick(t, n(t, 0, max(0, l-o)), n(t, 0, max(0, l-o)), max(0, l-o), n(t, 0, 8)))})
		}
	}
	return out
}

func genJobs(t *rapid.T) []Job {
	var jobs []Job
	for k := n(t, 1, 4); k > 0; k-- {
		j := Job{O: Opts{NS: chance(t, 1, 2), LC: pick(t, 3, 5), Reuse: chance(t, 1, 3)}, Every: pick(t, 1, 2, 5, 20)}
		switch weighted(t, 6, 2, 1, 1) {
		case 0:
			j.Doc = genDoc(t, DocCfg{NS: chance(t, 3, 4), Budget: pick(t, 4, 8, 20)})
		case 1:
			j.Doc = genBroken(t)
		case 2:
			j.Doc = genSoup(t)
		default:
			j.Doc = genTree(t)
		}
		if len(jobs) > 0 && chance(t, 1, 3) {
			j.Share = n(t, 1, len(jobs))
			j.Doc = nil
			j.Twin = chance(t, 1, 2)
		}
		for m := n(t, 0, 15); m > 0; m-- {
			j.Moves = append(j.Moves, pick(t, 2, 4, 2, 3, 4, 5, 1, 0))
		}
		if chance(t, 1, 2) {
			j.Reads = genReads(t, max(len(j.Doc), 40))
		}
		jobs = append(jobs, j)
	}
	return jobs
}

func genPure(t *rapid.T) any {
	pc := &PureCase{Jobs: genJobs(t)}
	for k := n(t, 0, 60); k > 0; k-- {
		pc.Order = append(pc.Order, n(t, 0, len(pc.Jobs)-1))
	}
	if chance(t, 1, 3) && len(pc.Jobs[0].Doc) > 0 {
		pc.Near = nearDocs(pc.Jobs[0].Doc, n(t, 0, 1<<20))
	}
	return pc
}

// docsOf resolves shared documents.
func docsOf(jobs []Job) [][]byte {
	docs := make([][]byte, len(jobs))
	for i := range jobs {
		docs[i] = jobs[i].Doc
		if s := jobs[i].Share; s > 0 && s <= i {
			docs[i] = docs[s-1]
		}
		if docs[i] == nil {
			docs[i] = []byte("<a/>")
		}
	}
	return docs
}

// parserOf is the job whose parser job i uses.
func parserOf(jobs []Job, i int) int {
	for jobs[i].Twin && jobs[i].Share > 0 && jobs[i].Share <= i {
		i = jobs[i].Share - 1
	}
	return i
}

// frozen copies bytes to read-only memory.
func frozen(b []byte) ([]byte, func()) {
	size := len(b) + 1
	m, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(harnessPanic("mmap: " + err.Error()))
	}
	copy(m, b)
	if err := syscall.Mprotect(m, syscall.PROT_READ); err != nil {
		panic(harnessPanic("mprotect: " + err.Error()))
	}
	return m[:len(b):len(b)], func() { _ = syscall.Munmap(m) }
}

// outSizes are the sizes of what stands behind standard output and error.
func outSizes() ([2]int64, bool) {
	var s [2]int64
	for k := range s {
		var st syscall.Stat_t
		if syscall.Fstat(k+1, &st) != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
			return s, false
		}
		s[k] = st.Size
	}
	return s, true
}

func checkPure(c *Ctx, v any) error {
	pc := v.(*PureCase)
	if pc.Part != nil {
		return pc.Part.run(c, func(doc []byte, k int) any {
			if len(doc) == 0 {
				return nil
			}
			if k%4 == 1 && len(doc) > 2 && doc[0] == '<' && doc[1] != '?' { // as ASCII
				doc = append([]byte("<?xml version='1.0' encoding='ASCII'?>"), doc...)
			}
			l := int32(len(doc))
			var near []Blob
			if k%3 == 0 {
				near = nearDocs(doc, k*7919)
			}
			return &PureCase{Jobs: []Job{{Doc: doc, O: Opts{NS: k%3 == 0, LC: 3 + 2*(k%2)}, Moves: []int{2, 4, 2, 3, 1, 5}, Every: 1 + k%5*k%5, Reads: [][2]int32{{0, l}, {0, l / 2}, {0, l - 1}, {l / 3, l / 3}, {l / 3, l / 4}, {1, l - 1}, {0, l}, {l / 2, l - l/2}, {l - 1, 1}, {l / 3, l / 3}}[k%5:]}},
				Near: near}
		}, checkPure)
	}
	if len(pc.Jobs) == 0 {
		return nil
	}
	docs := docsOf(pc.Jobs)
	before, regular := outSizes()
	if !regular {
		c.Label("output is not a file: not watched")
	}
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	// alone, on bytes that cannot be written to
	alone := make([]string, len(pc.Jobs))
	for i := range pc.Jobs {
		j := &pc.Jobs[i]
		mem, free := frozen(docs[i])
		r := &runner{job: j, doc: mem}
		if h := parserOf(pc.Jobs, i); h != i {
			h := &runner{job: &pc.Jobs[h], doc: mem}
			for k := 0; k < 3 && h.step(); k++ {
			}
			r.of = h
		}
		for r.step() {
		}
		alone[i] = r.vis.text()
		if r.bad != nil {
			return fmt.Errorf("job %d: %w\ndoc %s", i, r.bad, show(docs[i]))
		}
		free()
	}
	// again, interleaved, on ordinary copies
	copies := make([][]byte, len(docs))
	for i := range docs {
		if s := pc.Jobs[i].Share; s > 0 && s <= i {
			copies[i] = copies[s-1]
			c.Label("shared bytes")
		} else {
			copies[i] = append([]byte(nil), docs[i]...)
		}
	}
	rs := make([]*runner, len(pc.Jobs))
	done := make([]bool, len(pc.Jobs))
	for i := range rs {
		rs[i] = &runner{job: &pc.Jobs[i], doc: copies[i]}
		if h := parserOf(pc.Jobs, i); h != i {
			rs[i].of = rs[h]
			c.Label("two objects of one parser")
		}
	}
	ready := func(i int) bool { // a twin waits for the parse
		h := rs[i].of
		return h == nil || h.pc >= 2 || done[indexOf(rs, h)]
	}
	switches, last := 0, -1
	do := func(i int) {
		if !done[i] && ready(i) {
			if i != last {
				switches++
				last = i
			}
			done[i] = !rs[i].step()
		}
	}
	for _, i := range pc.Order {
		if i >= 0 && i < len(rs) {
			do(i)
		}
	}
	for again := true; again; {
		again = false
		for i := range rs {
			if !done[i] {
				do(i)
				again = true
			}
		}
	}
	if switches >= 3 {
		c.NonTrivial()
	}
	for i := range rs {
		c.Evals(1)
		if rs[i].bad != nil {
			return fmt.Errorf("job %d: %w\ndoc %s", i, rs[i].bad, show(docs[i]))
		}
		if got := rs[i].vis.text(); got != alone[i] {
			return fmt.Errorf("job %d gives another result when interleaved: %s\ndoc %s", i, firstDiff(got, alone[i]), show(docs[i]))
		}
		if !bytes.Equal(copies[i], docs[i]) {
			return fmt.Errorf("job %d changed its document\ndoc %s\nnow %s", i, show(docs[i]), show(copies[i]))
		}
	}
	// once more, alone: the same again
	for i := range pc.Jobs {
		if pc.Jobs[i].Twin {
			continue
		}
		r := &runner{job: &pc.Jobs[i], doc: copies[i]}
		for r.step() {
		}
		if got := r.vis.text(); got != alone[i] {
			return fmt.Errorf("job %d gives another result when repeated: %s\ndoc %s", i, firstDiff(got, alone[i]), show(docs[i]))
		}
	}
	if len(pc.Near) > 0 && len(docs[0]) < 6000 {
		if err := nearHistory(c, &pc.Jobs[0], append([]Blob{docs[0]}, pc.Near...), alone[0]); err != nil {
			return err
		}
	}
	if after, _ := outSizes(); regular && after != before {
		return fmt.Errorf("%d bytes were written to standard output and %d to standard error", after[0]-before[0], after[1]-before[1])
	}
	return nil
}

// nearDocs are documents of the same length that differ from doc in one or two bytes, each
// taken from elsewhere in the document and of the same kind.
func nearDocs(doc []byte, seed int) []Blob {
	kind := func(b byte) int {
		switch {
		case b >= '0' && b <= '9':
			return 1
		case b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z':
			return 2
		case b == ' ' || b == '\n' || b == '\r' || b == '\t':
			return 3
		}
		return 0
	}
	var out []Blob
	x := uint32(seed)*2654435761 + 12345
	next := func(n int) int {
		x = x*1664525 + 1013904223
		return int(x>>8) % n
	}
	for try := 0; try < 12 && len(out) < 2; try++ {
		p, q := next(len(doc)), next(len(doc))
		for i := 0; i < len(doc) && (kind(doc[p]) == 0 || kind(doc[p]) == 3 && try < 8); i++ {
			p = (p + 1) % len(doc)
		}
		k := kind(doc[p])
		for i := 0; i < len(doc) && (kind(doc[q]) != k || doc[q] == doc[p]); i++ {
			q = (q + 1) % len(doc)
		}
		b := doc[q]
		if k == 0 || kind(b) != k || b == doc[p] {
			b = doc[p] ^ 1
		}
		d := append(Blob(nil), doc...)
		d[p] = b
		if try%3 == 2 {
			d[q] = doc[p]
		}
		out = append(out, d)
	}
	return out
}

// rich is a document with something of everything, parsed in between.
const rich = "<?xml version='1.0' encoding='UTF-8' standalone='no'?><!DOCTYPE r [<!ENTITY e 'f'>]><?p q?><!--c--><r xmlns='urn:d' xmlns:k='urn:k' xmlns:l='urn:l' k:a='1' l:a='2' a='3'>" +
	"<k:s k:t='&amp;&#65;'><l:u xmlns:k='urn:z' k:v='w'><m><n><o>t&lt;\r\nu</o></n></m></l:u></k:s><![CDATA[x]]>\r\n&#x20AC;\u00e9<?q?></r><!--d-->"

// nearHistory parses and walks the documents one behind the other, in several orders, and
// compares what each of them gives.
func nearHistory(c *Ctx, job *Job, docs []Blob, first string) error {
	run := func(d []byte) (string, error) {
		r := &runner{job: job, doc: d}
		for r.step() {
		}
		return r.vis.text(), r.bad
	}
	want := make([]string, len(docs))
	want[0] = first
	var hist []int
	one := func(i int) error {
		hist = append(hist, i)
		c.Evals(1)
		got, err := run(append([]byte(nil), docs[i]...))
		if err != nil {
			return fmt.Errorf("history %v of near documents: %w\ndoc %s", hist, err, show(docs[i]))
		}
		if want[i] == "" {
			want[i] = got
		}
		if got != want[i] {
			return fmt.Errorf("document %d gives another result at the end of the history %v of near documents (-1: another one): %s\ndoc %s\nother %s", i, hist, firstDiff(got, want[i]), show(docs[i]), show(docs[(i+1)%len(docs)]))
		}
		return nil
	}
	for i := len(docs) - 1; i >= 0; i-- {
		if i == 0 || i == len(docs)-1 {
			_, _ = run([]byte(rich))
			hist = append(hist, -1)
		}
		if err := one(i); err != nil {
			return err
		}
	}
	for i := range docs {
		if err := one(i); err != nil {
			return err
		}
	}
	return nil
}

func indexOf(rs []*runner, r *runner) int {
	for i := range rs {
		if rs[i] == r {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- C16 errors

// errWindow is text around a window: the lines in front of it must not count.
var errWindow = [2]string{"\n\r\n<a>\n", "\n</a>\n"}

func checkErr(c *Ctx, doc []byte) error {
	if len(doc) == 0 {
		return nil
	}
	r := refxml.Parse(doc)
	buf := append(append([]byte(errWindow[0]), doc...), errWindow[1]...)
	// without a prefix or declaration, namespace awareness makes a difference only to names
	plain := bytes.IndexByte(doc, ':') < 0 && !bytes.Contains(doc, []byte("xmlns")) && hashBytes(doc)%8 != 0
	for _, ns := range []bool{false, true} {
		if ns && plain {
			continue
		}
		_, err := parse(doc, Opts{NS: ns})
		if e := judgeErr(c, doc, r, ns, err); e != nil {
			return e
		}
		if err == nil || (bytes.IndexByte(doc, '\n') < 0 && hashBytes(doc)%4 != 0) {
			continue
		}
		_, err = parseWin(buf, len(errWindow[0]), len(doc), Opts{NS: ns})
		if e := judgeErr(c, doc, r, ns, err); e != nil {
			return fmt.Errorf("parsed as a window at offset %d: %w", len(errWindow[0]), e)
		}
	}
	return nil
}

func judgeErr(c *Ctx, doc []byte, r *refxml.Result, ns bool, err error) error {
	if err == nil {
		return nil
	}
	c.Evals(1)
	kind := errKind(err)
	switch kind {
	case "eof", "parse", "entity", "encoding":
	default:
		return fmt.Errorf("ns=%v: the rejection %v (%T) is of kind %s\ndoc %s", ns, err, err, kind, show(doc))
	}
	if strings.TrimSpace(err.Error()) == "" {
		return fmt.Errorf("ns=%v: empty message of %T\ndoc %s", ns, err, show(doc))
	}
	var pe *erroring.ParseError
	if errors.As(err, &pe) && (strings.TrimSpace(pe.Msg) == "" || strings.TrimSpace(pe.Error()) == "") {
		return fmt.Errorf("ns=%v: a parse error without a message: %q\ndoc %s", ns, pe.Error(), show(doc))
	}
	line, e2 := lineOf(err)
	if e2 != nil {
		return fmt.Errorf("ns=%v: %v\ndoc %s", ns, e2, show(doc))
	}
	lines := bytes.Count(doc, []byte("\n")) + 1
	if errors.As(err, &pe) && pe.LineNumber != "" && (line < 1 || line > lines) {
		return fmt.Errorf("ns=%v: line %d of a document of %d lines\ndoc %s", ns, line, lines, show(doc))
	}
	if r.Tainted {
		c.Label("unclaimed construct: kind and line not judged")
		return nil
	}
	at := [][2]int{{r.S, r.E}}
	why := r.Reason
	switch {
	case r.Verdict == refxml.Accept:
		if !ns || r.NS != refxml.Reject {
			return nil
		}
		at, why = r.NSErrs, r.NSReason
		if kind != "parse" {
			return fmt.Errorf("a namespace error (%s) is reported as %s: %v\ndoc %s", r.NSReason, kind, err, show(doc))
		}
		c.Label("namespace error")
	case r.Verdict != refxml.Reject:
		return nil
	case ns && (bytes.Contains(doc, []byte("xmlns")) || bytes.IndexByte(doc, ':') >= 0):
		return nil // there may be an earlier namespace error
	case r.EOF && !r.EOFLoose:
		c.Label("end of input")
		c.NonTrivial()
		if kind != "eof" {
			return fmt.Errorf("ns=%v: the input ends too early and that is reported as %s: %v\ndoc %s", ns, kind, err, show(doc))
		}
		return nil
	case r.EOF:
		c.Label("end of input inside a delimiter")
		return nil
	default:
		c.Label("syntax error")
		if kind == "eof" {
			return fmt.Errorf("ns=%v: %s at byte %d of %d is reported as an end of input: %v\ndoc %s", ns, r.Reason, r.E, len(doc), err, show(doc))
		}
	}
	c.NonTrivial()
	if line == 0 {
		c.Label("no position")
		return nil
	}
	var ranges []string
	for _, se := range at {
		lo, hi := refxml.Line(doc, se[0]), refxml.Line(doc, se[1])
		if se[1] < len(doc) && doc[se[1]] == '\n' {
			hi++ // the position is taken behind the offending character
		}
		if lo > 1 {
			c.Label("position on a later line")
		}
		if line >= lo && line <= hi {
			return nil
		}
		ranges = append(ranges, fmt.Sprintf("bytes %d to %d, lines %d to %d", se[0], se[1], lo, hi))
	}
	return fmt.Errorf("ns=%v: %s (%s) is reported on line %d: %v\ndoc %s", ns, why, strings.Join(ranges, "; "), line, err, show(doc))
}

// genErrDoc is a broken document of several lines.
func genErrDoc(t *rapid.T) []byte {
	var d []byte
	switch weighted(t, 6, 2, 2, 2) {
	case 0:
		d = genBroken(t)
	case 1:
		d = genDoc(t, DocCfg{NS: chance(t, 1, 2), Budget: 10})
		d = d[:n(t, min(1, len(d)), len(d))]
	case 2:
		d = genNs(t)
	default:
		d = genSoup(t)
	}
	if chance(t, 2, 3) { // more line ends
		for k := n(t, 1, 6); k > 0; k-- {
			var at []int
			for i, c := range d {
				if c == '>' || c == ' ' || c == '<' && i > 0 && d[i-1] == '>' {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				break
			}
			i := at[n(t, 0, len(at)-1)]
			d = append(append(append([]byte(nil), d[:i+1]...), pick(t, "\n", "\n\n", " \n")...), d[i+1:]...)
		}
	}
	return d
}

// ---------------------------------------------------------------- C23 memory

// MemCase is a shape repeated up to a size.
type MemCase struct {
	Head string `json:"head"`
	Unit string `json:"unit"`
	Tail string `json:"tail"`
	N    int    `json:"n"`
	O    Opts   `json:"o"`
	Num  bool   `json:"num,omitempty"` // '#' in the unit is a running number
	Mid  string `json:"mid,omitempty"`
	Two  string `json:"two,omitempty"` // a second unit, repeated M times behind Mid
	M    int    `json:"m,omitempty"`
}

func (m *MemCase) doc() []byte {
	if !m.Num && m.Two == "" {
		return []byte(m.Head + strings.Repeat(m.Unit, m.N) + m.Tail)
	}
	var b bytes.Buffer
	b.WriteString(m.Head)
	for i := 0; i < m.N; i++ {
		b.WriteString(strings.ReplaceAll(m.Unit, "#", strconv.Itoa(i)))
	}
	b.WriteString(m.Mid)
	for i := 0; i < m.M; i++ {
		b.WriteString(strings.ReplaceAll(m.Two, "#", strconv.Itoa(i)))
	}
	b.WriteString(m.Tail)
	return b.Bytes()
}

// memPairs have two parts that may cost more together than each on its own.
var memPairs = []MemCase{
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<p1:a/>", Tail: "</r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<a/>", Tail: "</r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<p0:a p1:b='' p2:b=''/>", Tail: "</r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<a p#:b=''></a>", Tail: "</r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: "><a>", Two: "<p1:a xmlns:q='v'/>", Tail: "</a></r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<a xmlns='v'>t</a>", Tail: "</r>"},
	{Head: "<r", Unit: " xmlns:p#='u#'", Mid: ">", Two: "<!--c-->", Tail: "</r>"},
	{Head: "<r", Unit: " a#=''", Mid: ">", Two: "<a/>", Tail: "</r>"},
	{Head: "<r", Unit: " a#=''", Mid: ">", Two: "<a b='1' c='2'/>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a#>", Mid: "", Two: "<b/>", Tail: ""},
	{Head: "<r>", Unit: "<a b='#'/>", Mid: "", Two: "<b><c/></b>", Tail: "</r>"},
	{Head: "<!DOCTYPE r [", Unit: "<!ENTITY e# 'v'>", Mid: "]><r>", Two: "<b>t</b>", Tail: "</r>"},
	{Head: "", Unit: "<!--#-->", Mid: "<r>", Two: "<b>t</b>", Tail: "</r>"},
	{Head: "<r>", Unit: "\n", Mid: "", Two: "<a\n/>", Tail: "</x>"},
	{Head: "<r a='", Unit: "&amp;", Mid: "'>", Two: "<a b='&lt;'/>", Tail: "</r>"},
	{Head: "<r xmlns:p='", Unit: "&amp;", Mid: "'>", Two: "<p:a p:b='&lt;'/>", Tail: "</r>"},
	{Head: "<r xmlns:p='u", Unit: "x", Mid: "' xmlns:q='v'>", Two: "<p:a p:b='' q:b=''/>", Tail: "</r>"},
}

var memShapes = []MemCase{
	{Head: "<r>", Unit: "<a/>", Tail: "</r>"},
	{Head: "<r><a>", Unit: "<b/>", Tail: "</a></r>"},
	{Head: "<r><a><b>", Unit: "<c/>", Tail: "</b></a></r>"},
	{Head: "<r><a><b><c>", Unit: "<d/>", Tail: "</c></b></a></r>"},
	{Head: "<r><a><b><c><d><e>", Unit: "<f/>", Tail: "</e></d></c></b></a></r>"},
	{Head: "<r>", Unit: "<a></a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a><b/></a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a><b><c/></b></a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a><b><c><d/></c></b></a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<?a?>", Tail: "</r>"},
	{Head: "<r>", Unit: "<!---->", Tail: "</r>"},
	{Head: "<r>", Unit: "x<b/>", Tail: "</r>"},
	{Head: "<r", Unit: " a#=''", Tail: "/>", Num: true},
	{Head: "<r xmlns:p='u'", Unit: " p:a#=''", Tail: "/>", Num: true},
	{Head: "<r", Unit: " xmlns:a#='u'", Tail: "/>", Num: true},
	{Head: "<r>", Unit: "<a xmlns:p='u'><p:b p:c='1'/></a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a xmlns='u#'/>", Tail: "</r>", Num: true},
	{Head: "<r>", Unit: "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", Tail: "</r>"},
	{Head: "<r>", Unit: "&amp;", Tail: "</r>"},
	{Head: "<r>", Unit: "]", Tail: "</r>"},
	{Head: "<r a='", Unit: "xyz ", Tail: "'/>"},
	{Head: "<r><!--", Unit: "xyz ", Tail: "--></r>"},
	{Head: "<r><![CDATA[", Unit: "]x", Tail: "]]></r>"},
	{Head: "<r><?p ", Unit: "?x", Tail: "?></r>"},
	{Head: "<!DOCTYPE r [", Unit: "<!--x-->", Tail: "]><r/>"},
	{Head: "<!DOCTYPE r [", Unit: "<!ENTITY e 'v'>", Tail: "]><r/>"},
	{Head: "", Unit: "<a>", Tail: ""},
	{Head: "", Unit: "<a>\n", Tail: "</b>"},
	{Head: "", Unit: "<", Tail: ""},
	{Head: "", Unit: " ", Tail: "<r/>"},
	{Head: "<r>", Unit: "\n", Tail: "</x>"},
	{Head: "<r/>", Unit: "\n<?p?>", Tail: ""},
	{Head: "<r>", Unit: "<a b='1'>t</a>", Tail: "</r>"},
	{Head: "<r>", Unit: "<a>", Tail: "x"},
	{Head: "<", Unit: "n", Tail: "/>"},
	{Head: "<r ", Unit: "n", Tail: "='1'/>"},
	{Head: "<r>", Unit: "é<b c='é'/>", Tail: "</r>"},
}

// allocated measures the bytes allocated by f, the least of a few runs.
func allocated(f func()) uint64 {
	best := uint64(math.MaxUint64)
	for k := 0; k < 3; k++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		best = min(best, b.TotalAlloc-a.TotalAlloc)
	}
	return best
}

const (
	memFixed   = 1 << 20
	memPerByte = 120
	memNav     = 64 << 10
)

func checkMem(c *Ctx, v any) error {
	m := v.(*MemCase)
	if m.N < 0 || m.N > 4<<20 || (len(m.Unit)+8)*m.N > 64<<20 || m.M < 0 || m.M > 1<<20 || (len(m.Two)+8)*m.M > 64<<20 {
		return nil
	}
	doc := m.doc()
	if len(doc) == 0 {
		return nil
	}
	if len(doc) >= 64 {
		c.NonTrivial()
	}
	var p *parser.VtdParser
	var err error
	used := allocated(func() {
		p, err = parser.NewVtdParser(append([]parser.Option{parser.WithXmlDoc(doc)}, m.O.list()...)...)
		if err == nil {
			err = p.Parse()
		}
	})
	switch {
	case len(doc) > 1<<20:
		c.Label("size > 1 MB")
	case len(doc) > 1<<16:
		c.Label("size > 64 kB")
	}
	if os.Getenv("VERIF_MEM") != "" {
		fmt.Printf("%8d bytes: %10d allocated, %6.1f per byte over the fixed part %v %s|%s|%s\n", len(doc), used, float64(int64(used)-300000)/float64(len(doc)), err != nil, m.Head, m.Unit, m.Tail)
	}
	if limit := uint64(memFixed + memPerByte*len(doc)); used > limit {
		return fmt.Errorf("%d bytes allocated for a document of %d bytes, the allowance is %d (%d plus %d per byte)", used, len(doc), limit, memFixed, memPerByte)
	}
	if err != nil {
		c.Label("rejected")
		return nil
	}
	c.Label("accepted")
	used = allocated(func() { _, err = p.GetNav() })
	if used > memNav+uint64(len(doc)) {
		return fmt.Errorf("%d bytes allocated for the navigation object over %d bytes", used, len(doc))
	}
	return nil
}

// ---------------------------------------------------------------- C26 concurrency

// RaceCase runs jobs in goroutines of their own.
type RaceCase struct {
	Jobs []Job `json:"jobs"`
	Reps int   `json:"reps,omitempty"`
	Part *Part `json:"part,omitempty"` // instead: each of many small documents next to the one before it
}

func checkRace(c *Ctx, v any) error {
	rc := v.(*RaceCase)
	if rc.Part != nil {
		prev := []byte("<a>t</a>")
		return rc.Part.run(c, func(doc []byte, k int) any {
			if len(doc) == 0 || len(doc) > 300 && k%8 != 0 || len(doc) > 3000 {
				return nil
			}
			jobs := []Job{{Doc: doc, O: Opts{NS: k%3 > 0, LC: 3 + 2*(k%2)}, Moves: []int{2, 4, 2, 3, 1, 6}, Every: 4}, {Doc: prev, O: Opts{NS: k%4 > 0, LC: 5 - 2*(k%2), Reuse: k%5 == 0}, Moves: []int{6, 3, 1}, Every: 3}}
			prev = doc
			return &RaceCase{Jobs: jobs, Reps: 2}
		}, checkRace)
	}
	if len(rc.Jobs) == 0 {
		return nil
	}
	docs := docsOf(rc.Jobs)
	run := func(i int) string {
		r := &runner{job: &rc.Jobs[i], doc: docs[i]}
		for r.step() {
		}
		return r.vis.text()
	}
	// each on its own bytes, concurrently; first, so that nothing has been set up before
	reps := max(1, min(rc.Reps, 8))
	got := make([]string, len(rc.Jobs)*reps)
	var wg sync.WaitGroup
	panics := make([]any, len(got))
	gate := make(chan struct{})
	for k := range got {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() { panics[k] = recover() }()
			<-gate
			got[k] = run(k % len(rc.Jobs))
		}(k)
	}
	close(gate)
	wg.Wait()
	for k := range got {
		if panics[k] != nil {
			return fmt.Errorf("job %d panics: %v\ndoc %s", k%len(rc.Jobs), panics[k], show(docs[k%len(rc.Jobs)]))
		}
	}
	if len(got) >= 3 {
		c.NonTrivial()
	}
	for i := range rc.Jobs {
		want := run(i)
		for k := i; k < len(got); k += len(rc.Jobs) {
			c.Evals(1)
			if got[k] != want {
				return fmt.Errorf("job %d gives another result next to others: %s\ndoc %s", i, firstDiff(got[k], want), show(docs[i]))
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "any bytes (random, markup soup, documents with up to three edits, cut documents, UTF-16, documents around the limits) with any options and windows; every index, drawn ranges and moves; " +
			"non-trivial: at least six bytes reach the parser",
		New: func() any { return &AnyCase{} }, Gen: genAnyCase, Check: checkAny,
		Quick: 80000, Thorough: 6000000, CPULimit: 20,
		Fixed: func(tier string) []any {
			// every document of up to two bytes, every three from the bytes that matter
			var out []any
			opts := []AnyOpt{{Op: "doc"}, {Op: "ns", On: true}}
			for a := 0; a < 256; a++ {
				out = append(out, &AnyCase{Doc: Blob{byte(a)}, Opts: opts})
				for _, b := range []byte("<!?>/a \n&;'\"-[]\x00\xff\xfe\xef\xbb\xbf") {
					out = append(out, &AnyCase{Doc: Blob{byte(a), b}, Opts: opts}, &AnyCase{Doc: Blob{b, byte(a)}, Opts: opts})
				}
			}
			moves := []int{2, 2, 4, 3, 1, 4, 2, 5, 1, 1, 3, 2, 0, 3, 3, 3}
			for i, sw := range sweepParts("quick", 0, len(sweepDocs)) {
				out = append(out, &AnyCase{Sweep: sw, Opts: []AnyOpt{{Op: "doc"}, {Op: "ns", On: true}, {Op: "lc", A: 3 + i%2*2}}, Moves: moves})
				if tier == "thorough" || sw.Doc%4 == 0 {
					out = append(out, &AnyCase{Sweep: sw, Opts: []AnyOpt{{Op: "doc"}, {Op: "lc", A: 5 - i%2*2}}, Moves: moves})
				}
			}
			less := 1
			if tier == "thorough" {
				less = 0
			}
			short := moves[:6]
			for i, e := range append(enumParts(tier, less), enumOpen(tier, less)...) {
				out = append(out, &AnyCase{Enum: e, Opts: []AnyOpt{{Op: "doc"}, {Op: "ns", On: i%3 > 0}, {Op: "lc", A: 3 + i%2*2}}, Moves: short})
			}
			for i, e := range pumpParts(tier, 0) {
				out = append(out, &AnyCase{Pump: e, Opts: []AnyOpt{{Op: "doc"}, {Op: "ns", On: i%3 == 0}, {Op: "lc", A: 3 + i%2*2}}, Moves: short})
			}
			for i, e := range scaleParts(tier) {
				if e.Kind == "counts" && i%6 != 0 && tier != "thorough" {
					continue
				}
				if e.Kind != "tokens" && (tier == "thorough" || e.Kind == "nth" || e.Kind == "chars" || e.N <= 5000 && i%2 == 0 || e.Kind == "offsets" && i%3 == 0) {
					out = append(out, &AnyCase{Scale: e, Opts: []AnyOpt{{Op: "doc"}, {Op: "ns", On: i%4 < 2}, {Op: "lc", A: 3 + i%4/2*2}}, Moves: moves})
				}
			}
			for i, e := range append(transParts(tier, 0, 10000, false), transParts(tier, 4, 4000, false)...) {
				e.Open = i%5 == 0
				out = append(out, &AnyCase{Trans: e, Opts: []AnyOpt{{Op: "doc"}, {Op: "ns", On: i%4 < 2}, {Op: "lc", A: 3 + i%4/2*2}}, Moves: short})
			}
			return out
		},
	})
	register(&Prop{
		ID: "C11",
		Rule: "declarations with drawn spelling, spacing, quotes, order and values, right and wrong, in front of documents with and without non-ASCII bytes, with byte-order marks and in UTF-16; every sequence of up to five declaration tokens; against an independent reference parser; " +
			"non-trivial: the reference reads a version",
		New: func() any { return &DocCase{} },
		Gen: func(t *rapid.T) any { return &DocCase{Doc: genDecl(t)} },
		Check: func(c *Ctx, v any) error {
			return v.(*DocCase).docs(c, checkDecl)
		},
		Fixed: func(tier string) []any {
			words := -1
			if tier == "thorough" {
				words = 0
			}
			return append(append(enumCases(0, "declaration", "start bytes", "encoding name")(tier), enumCases(words, "encoding word")(tier)...), declGrid()...)
		},
		Quick: 120000, Thorough: 6000000,
	})
	register(&Prop{
		ID: "C12",
		Rule: "documents built around each limit (names, prefixes, depth, values, PIs, DOCTYPE) and texts, CDATA and comments of one to five token lengths, with one- to four-byte characters and references; verdict, records and strings against an independent reference; " +
			"every case is non-trivial",
		New: func() any { return &HugeCase{} },
		Gen: func(t *rapid.T) any { return genVeryHuge(t) }, Check: checkHuge, Fixed: hugeFixed,
		Quick: 160, Thorough: 12000, CPULimit: 120,
	})
	register(&Prop{
		ID: "C13",
		Rule: "windows of buffers: whole documents between adversarial neighbours, parts of documents followed by their rest, wrong windows; result compared with that of a copy, and with other neighbours; " +
			"non-trivial: the window is smaller than the buffer",
		New: func() any { return &WinCase{} }, Gen: genWin, Check: checkWin,
		Fixed: func(tier string) []any {
			var out []any
			for i, d := range sweepDocs {
				out = append(out, &WinCase{Buf: Blob(d), O: Opts{NS: true, LC: 3 + i%2*2}, All: true})
				for k := 16; k <= 31; k++ {
					for _, at := range []int{0, -1, -len(d) - 1, -len(d), -len(d) / 2, 77, -len(d) / 3} {
						out = append(out, &WinCase{Buf: Blob("<b>" + d + ">"), O: Opts{NS: (i+k)%2 == 0, LC: 3 + i%2*2}, Off: 3, Len: len(d), High: 1<<k + at, Moves: []int{2, 4, 2, 3, 5}})
					}
				}
				out = append(out, &WinCase{Buf: Blob("<r>" + d + "]]>" + d), O: Opts{LC: 3 + i%2*2}, Off: 3, Len: len(d)})
			}
			for _, p := range partList(tier, 1, 7) {
				out = append(out, &WinCase{Part: p, Moves: []int{2, 4, 2, 3, 5}})
			}
			for _, p := range append(sparse(tier, 3, scaled(tier, 4100)), append(sparse(tier, 4, transplanted(tier, 0, 10000, false)), sparse(tier, 5, transplanted(tier, 4, 4000, false))...)...) {
				out = append(out, &WinCase{Part: p, Moves: []int{2, 4, 2, 3, 5}})
			}
			return out
		},
		Quick: 40000, Thorough: 2500000,
	})
	register(&Prop{
		ID: "C14",
		Rule: "generated documents, right and wrong, parsed with every namespace mode and several cache depths, reuse settings and option orders; verdict, error, tokens, strings and cursor compared; " +
			"non-trivial: accepted with namespaces",
		New: func() any { return &OptCase{} },
		Gen: func(t *rapid.T) any {
			oc := &OptCase{}
			switch weighted(t, 6, 2, 2, 1) {
			case 0:
				oc.Doc = genDoc(t, DocCfg{NS: chance(t, 4, 5)})
			case 1:
				oc.Doc = genTree(t)
			case 2:
				oc.Doc = genBroken(t)
			default:
				oc.Doc = genNs(t)
			}
			for k := n(t, 1, 3); k > 0; k-- {
				oc.Orders = append(oc.Orders, n(t, 1, 119))
			}
			if chance(t, 1, 5) {
				oc.LCs = []int{3, 5, pick(t, 0, 4, -1, 6, 100, 1)}
			}
			for k := n(t, 0, 25); k > 0; k-- {
				oc.Moves = append(oc.Moves, pick(t, 2, 4, 2, 3, 4, 5, 1, 0))
			}
			if chance(t, 1, 2) {
				oc.Moves = append(oc.Moves, 6, 7)
			}
			return oc
		},
		Check: checkOpts,
		Fixed: func(tier string) []any {
			var ms []int
			for k := 1; k < 160; k++ {
				ms = append(ms, []int{2, 4, 2, 3, 5, 4, 1, 2, 4, 4}[(k*k+k/7)%10])
			}
			var out []any
			for _, d := range sweepDocs {
				out = append(out, &OptCase{Doc: Blob(d), Orders: []int{1, 4, 31, 77, 119}, Moves: append([]int{6, 7}, ms...)})
			}
			for i, p := range partList(tier, 1, 9) {
				oc := &OptCase{Part: p, Moves: append([]int{6, 7}, ms[:6]...)}
				if i%5 == 0 {
					oc.Orders = []int{1 + i%119}
				}
				out = append(out, oc)
			}
			for _, p := range append(append(sparse(tier, 6, scaled(tier, 0, "chars")), append(scaled(tier, 0, "widths"), sparse(tier, 4, scaled(tier, 4100, "twins", "uris", "attributes", "declarations", "values", "space", "lines"))...)...), append(scaled(tier, 0, "children"), append(sparse(tier, 6, transplanted(tier, 0, 8000, true)), sparse(tier, 8, transplanted(tier, 4, 4000, true))...)...)...) {
				out = append(out, &OptCase{Part: p, Moves: append([]int{6 + len(out)%2}, ms[:12]...)})
			}
			for i, p := range scaled(tier, 0, "counts") {
				if i%2 == 0 || p.Scale.N%32 < 2 {
					out = append(out, &OptCase{Part: p, Moves: []int{6 + i%2, 3, 3, 5, 2}})
				}
			}
			bigDocs(tier, func(doc []byte, shape, size int) {
				if size <= 70000 || shape%4 == 0 {
					out = append(out, &OptCase{Doc: doc, Orders: []int{1 + shape}, Moves: ms})
				}
			})
			return out
		},
		Quick: 14000, Thorough: 1200000,
	})
	register(&Prop{
		ID: "C15",
		Rule: "one to four jobs (construct, parse, walk, read) on right and wrong documents, some on shared bytes or from one parser: alone on read-only memory, interleaved in a drawn order, and repeated; transcripts, document bytes and the size of standard output and error compared; " +
			"non-trivial: at least three switches between jobs",
		New: func() any { return &PureCase{} }, Gen: genPure, Check: checkPure,
		Fixed: func(tier string) []any {
			var out []any
			for _, p := range partList(tier, 2, 7) {
				out = append(out, &PureCase{Part: p})
			}
			parts := append(sparse(tier, 4, scaled(tier, 2100)), sparse(tier, 4, transplanted(tier, 0, 5000, false))...)
			for i, p := range transplanted(tier, 4, 4000, false) {
				if tier == "thorough" || i%4 == 2 || strings.Contains(p.label(), "ASCII") && p.Trans.Step < 40 {
					parts = append(parts, p)
				}
			}
			parts = append(parts, sparse(tier, 6, transplanted(tier, 2, 4000, false))...)
			for _, p := range parts {
				out = append(out, &PureCase{Part: p})
			}
			for i, jobs := range sizedJobs(tier, 150000) {
				orders := [][]int{{0, 0, 0, 1, 1, 1}, {0, 1, 0, 1, 0, 1}, {0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 0, 0, 2}, {1, 0, 0, 0, 2, 1, 1, 2, 2}}
				out = append(out, &PureCase{Jobs: jobs, Order: orders[i%4]})
			}
			return out
		},
		Quick: 25000, Thorough: 1500000,
	})
	register(&Prop{
		ID: "C16",
		Rule: "broken, cut and namespace-ill-formed documents of several lines; error type, message and line against the place an independent reference parser finds; " +
			"non-trivial: the kind or the line of the error is judged",
		New: func() any { return &DocCase{} },
		Gen: func(t *rapid.T) any { return &DocCase{Doc: genErrDoc(t)} },
		Check: func(c *Ctx, v any) error {
			return v.(*DocCase).docs(c, checkErr)
		},
		Fixed: andTrans(enumCases(2), func(tier string) []*Trans {
			in := transParts(tier, 4, 15000, false)
			for i, t := range in {
				t.Open = i%4 == 0
			}
			return append(transParts(tier, 0, 15000, false), in...)
		}),
		Quick: 60000, Thorough: 3000000,
	})
	register(&Prop{
		ID: "C23",
		Rule: "shapes (wide at each depth, attributes, declarations, texts, references, broken ones) repeated up to several MB, and generated units; allocated bytes against a fixed allowance plus a constant per document byte; " +
			"non-trivial: at least 64 bytes",
		New: func() any { return &MemCase{} },
		Gen: func(t *rapid.T) any {
			if chance(t, 1, 5) {
				m := memPairs[n(t, 0, len(memPairs)-1)]
				m.O = Opts{NS: chance(t, 3, 4), LC: pick(t, 3, 5), Reuse: chance(t, 1, 4)}
				m.Num, m.N, m.M = true, pick(t, n(t, 0, 50), n(t, 0, 1500)), pick(t, n(t, 0, 50), n(t, 0, 1500))
				return &m
			}
			m := memShapes[n(t, 0, len(memShapes)-1)]
			if chance(t, 1, 3) {
				d := bytes.TrimSpace(genDoc(t, DocCfg{NS: true, NoDTD: true, NoDecl: true, Budget: 5, MaxDepth: 6}))
				m = MemCase{Head: "<r>", Unit: string(d), Tail: "</r>"}
			}
			m.O = Opts{NS: chance(t, 1, 2), LC: pick(t, 3, 5), Reuse: chance(t, 1, 4)}
			m.N = pick(t, n(t, 0, 20), n(t, 0, 300), n(t, 0, 3000), n(t, 0, 20000))
			if m.Num && m.N > 1500 {
				m.N = 1500
			}
			for m.N*len(m.Unit) > 1<<20 {
				m.N /= 2
			}
			return &m
		},
		Check: checkMem,
		Fixed: func(tier string) []any {
			var out []any
			for _, m := range memPairs {
				k := m
				k.Num, k.N, k.M, k.O = true, 2000, 2000, Opts{NS: true, LC: 3}
				if k.Two == "<b/>" {
					k.N = 200
				}
				if tier == "thorough" {
					k.N, k.M = min(k.N*2, 4000), 6000
				}
				k2, k3, k4 := k, k, k
				k2.N, k2.M = 100, 4000
				k3.N, k3.M = min(k.N*2, 4000), 20
				k4.O = Opts{LC: 5}
				out = append(out, &k, &k2, &k3, &k4)
			}
			// many things, each of them long
			for i, size := range []int{70, 300, 1100, 2040, 5000, 70000} {
				for j, d := range [][3]string{
					{"<r>", "~<b/>", "</r>"}, {"<r>", "<b>~</b>", "</r>"}, {"<r>", "<b c='~'/>", "</r>"}, {"<r>", "<!--~-->", "</r>"}, {"<r>", "<?p ~?>", "</r>"}, {"<r>", "<![CDATA[~]]>", "</r>"}, {"<r>", "~&amp;", "</r>"},
					{"<r>", "<~/>", "</r>"}, {"<r>", "<~></~>", "</r>"}, {"<r>", "<b ~=''/>", "</r>"}, {"<r>", "<b xmlns:p='~' p:c=''/>", "</r>"}, {"<r>", "<b xmlns:p='u' xmlns:q='~' p:c='' q:c=''/>", "</r>"}, {"<r>", "<?~?>", "</r>"},
					{"", "<!--~-->", "<r/>"}, {"", "<?p ~?>", "<r/>"}, {"<r/>", "<!--~-->", ""}, {"<r/>", "<?p ~?>", ""}, {"<!DOCTYPE r [", "<!--~-->", "]><r/>"}, {"<r>", "<b~/>", "</r>"}, {"<r>", "<b></b~>", "</r>"}, {"<r>", "<b c~=~''/>", "</r>"}, {"<r>", "~<b/>", "</x>"},
				} {
					x := "x"
					if strings.Contains(d[1], "b~") || strings.Contains(d[1], "c~") {
						x = " "
					}
					l := size
					if j >= 7 && j <= 9 || j == 12 {
						l = min(l, 2040)
					}
					unit := strings.ReplaceAll(d[1], "~", strings.Repeat(x, l))
					out = append(out, &MemCase{Head: d[0], Unit: unit, Tail: d[2], N: (1<<21)/len(unit) + 1, O: Opts{NS: (i+j)%2 == 0, LC: 3 + 2*(j%2)}})
				}
			}
			for _, m := range memShapes {
				for _, lc := range []int{3, 5} {
					size := 1 << 20
					if tier == "thorough" {
						size = 12 << 20
					}
					k := m
					k.N = size / len(k.Unit)
					if k.Num {
						k.N = 3000
						if tier == "thorough" {
							k.N = 8000
						}
					}
					k.O = Opts{NS: true, LC: lc}
					out = append(out, &k)
					for _, small := range []int{1, 1020, 1030, 4090, 4100, 16380, 16390, 65530, 65540, 262140, 262150} {
						s := k
						s.N = min(small/len(s.Unit)+1, 2000000)
						if s.Num {
							s.N = min(s.N, 2000)
						}
						out = append(out, &s)
					}
				}
			}
			return out
		},
		Quick: 2500, Thorough: 150000, CPULimit: 120,
	})
	register(&Prop{
		ID: "C26",
		Rule: "one to four jobs, each several times, in goroutines of their own, under the race detector, some on shared bytes; transcripts compared with those of the same job alone; " +
			"non-trivial: at least three goroutines",
		New: func() any { return &RaceCase{} },
		Gen: func(t *rapid.T) any {
			rc := &RaceCase{Jobs: genJobs(t), Reps: n(t, 1, 3)}
			for i := range rc.Jobs {
				rc.Jobs[i].Twin = false
			}
			return rc
		},
		Check: checkRace, Race: true,
		Fixed: func(tier string) []any {
			var out []any
			for _, d := range sweepDocs {
				out = append(out, &RaceCase{Jobs: []Job{{Doc: Blob(d), O: Opts{NS: true}, Moves: []int{6, 7, 2, 4}, Reads: [][2]int32{{0, 5}, {1, 9}}}}, Reps: 8})
			}
			var parts []*Part
			for _, p := range partList(tier, 2, 40) {
				parts = append(parts, p)
			}
			parts = append(parts, sparse(tier, 20, scaled(tier, 2100))...)
			parts = append(parts, sparse(tier, 20, transplanted(tier, 0, 3000, false))...)
			parts = append(parts, sparse(tier, 20, transplanted(tier, 4, 3000, false))...)
			for _, p := range parts {
				out = append(out, &RaceCase{Part: p})
			}
			for _, jobs := range sizedJobs(tier, 20000) {
				out = append(out, &RaceCase{Jobs: jobs, Reps: 2})
			}
			return out
		},
		Quick: 12000, Thorough: 600000,
	})
}

// declGrid is every declaration of a grid of versions, encodings, standalone values,
// quotes and spacing.
func declGrid() []any {
	var out []any
	for _, v := range []string{"1.0", "1.1", "1.2", "1", ""} {
		for _, e := range []string{"-", "UTF-8", "utf-8", "ASCII", "us-ascii", "US-ASCII", "ascii", "UTF-16", "UTF-16LE", "utf-16be", "ISO-8859-1", "iso-8859-16", "windows-1250", "cp1258", "UTF-9", "", "Utf-8", "uTF-8", "Us-Ascii", "uS-aSCII", "Ascii", "aSCII", "asciI"} {
			for _, s := range []string{"-", "yes", "no", "maybe"} {
				for _, q := range []string{"'", "\""} {
					for _, sp := range []string{"", " ", "\r\n\t"} {
						for i, body := range []string{"<a/>", "<a>é</a>", "<a>" + fillTo(1200, "x") + "é</a>", "<a>" + fillTo(5000, "x") + "</a>", "<a>" + fillTo(70000, "x") + "é</a>"} {
							if i > 1 && (q != "'" || sp != " ") || i > 3 && v != "1.0" {
								continue
							}
							for _, bom := range []string{"", "\xef\xbb\xbf"} {
								d := bom + "<?xml version" + sp + "=" + sp + q + v + q
								if e != "-" {
									d += " encoding" + sp + "=" + sp + q + e + q
								}
								if s != "-" {
									d += " standalone" + sp + "=" + sp + q + s + q
								}
								out = append(out, &DocCase{Doc: Blob(d + sp + "?>" + body)})
							}
						}
					}
				}
			}
		}
	}
	return out
}
