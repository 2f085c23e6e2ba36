package main

import (
	"errors"
	"fmt"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"

	"verif/harness/refxml"
)

// Opts are the parser options of a case.
type Opts struct {
	NS    bool `json:"ns,omitempty"`
	LC    int  `json:"lc,omitempty"` // 0: default
	Reuse bool `json:"reuse,omitempty"`
}

func (o Opts) list() []parser.Option {
	l := []parser.Option{parser.WithNameSpaceAware(o.NS)}
	if o.LC != 0 {
		l = append(l, parser.WithLcDepth(o.LC))
	}
	if o.Reuse {
		l = append(l, parser.WithBufferReuse(true))
	}
	return l
}

// parse runs constructor, Parse and GetNav on a whole document.
func parse(doc []byte, o Opts) (*navigation.VtdNav, error) {
	return parseOpts(append([]parser.Option{parser.WithXmlDoc(doc)}, o.list()...)...)
}

func parseWin(buf []byte, off, n int, o Opts) (*navigation.VtdNav, error) {
	return parseOpts(append([]parser.Option{parser.WithXmlDocCustomOffset(buf, off, n)}, o.list()...)...)
}

func parseOpts(opts ...parser.Option) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(opts...)
	if err != nil {
		return nil, err
	}
	if err := p.Parse(); err != nil {
		return nil, err
	}
	nav, err := p.GetNav()
	if err != nil {
		return nil, fmt.Errorf("GetNav after a successful parse: %w", err)
	}
	if nav == nil {
		return nil, errors.New("GetNav after a successful parse returned nothing")
	}
	return nav, nil
}

var tokenOf = map[refxml.Kind]common.Token{
	refxml.StartTag: common.TokenStartingTag, refxml.AttrName: common.TokenAttrName, refxml.AttrNs: common.TokenAttrNs,
	refxml.AttrVal: common.TokenAttrVal, refxml.Text: common.TokenCharacterData, refxml.Comment: common.TokenComment,
	refxml.PiName: common.TokenPiName, refxml.PiVal: common.TokenPiVal, refxml.DecAttrName: common.TokenDecAttrName,
	refxml.DecAttrVal: common.TokenDecAttrVal, refxml.Cdata: common.TokenCdataVal, refxml.Dtd: common.TokenDtdVal,
	refxml.Document: common.TokenDocument,
}

// Rec is one token as the navigation object reports it.
type Rec struct {
	Type, Off, Len, Depth int32
}

func record(nav *navigation.VtdNav, i int) (Rec, error) {
	var r Rec
	var err error
	if r.Type, err = nav.GetTokenType(i); err != nil {
		return r, fmt.Errorf("GetTokenType(%d): %w", i, err)
	}
	if r.Off, err = nav.GetTokenOffset(i); err != nil {
		return r, fmt.Errorf("GetTokenOffset(%d): %w", i, err)
	}
	if r.Len, err = nav.GetTokenLength(i); err != nil {
		return r, fmt.Errorf("GetTokenLength(%d): %w", i, err)
	}
	if r.Depth, err = nav.GetTokenDepth(i); err != nil {
		return r, fmt.Errorf("GetTokenDepth(%d): %w", i, err)
	}
	return r, nil
}

func records(nav *navigation.VtdNav) ([]Rec, error) {
	n := nav.GetVtdBufferSize()
	out := make([]Rec, 0, n)
	for i := 0; i < n; i++ {
		r, err := record(nav, i)
		if err != nil {
			return nil, err
		}
		out = append(out, r)
	}
	return out, nil
}

// recordMax is the most bytes one record of a text, CDATA section or comment covers; a
// longer one has several records, of which the first tells the length of the whole and
// each of the others that of the rest.
const recordMax = 1<<20 - 1

// continued inserts the records that continue long texts into the reference's list.
func continued(toks []refxml.Tok) []refxml.Tok {
	long := false
	for _, t := range toks {
		long = long || t.Len > recordMax
	}
	if !long {
		return toks
	}
	var out []refxml.Tok
	for _, t := range toks {
		out = append(out, t)
		if t.Kind != refxml.Text && t.Kind != refxml.Cdata && t.Kind != refxml.Comment {
			continue
		}
		for t.Len > recordMax {
			t.Len -= recordMax
			t.Off += recordMax
			t.OffHi += recordMax
			out = append(out, t)
		}
	}
	return out
}

// recordsOf is the number of records of a token.
func recordsOf(t refxml.Tok) int {
	if t.Len > recordMax && (t.Kind == refxml.Text || t.Kind == refxml.Cdata || t.Kind == refxml.Comment) {
		return (t.Len + recordMax - 1) / recordMax
	}
	return 1
}

// renumber makes the elements' token numbers count the records that continue long texts.
func renumber(r *refxml.Result) {
	if len(continued(r.Toks)) == len(r.Toks) {
		return
	}
	extra := make([]int, len(r.Toks)+1)
	for i, t := range r.Toks {
		extra[i+1] = extra[i] + len(continued([]refxml.Tok{t})) - 1
	}
	for _, e := range r.Elems {
		e.Tok += extra[e.Tok]
	}
}

// compareTokens compares the token list with the reference.
func compareTokens(c *Ctx, res *refxml.Result, nav *navigation.VtdNav, ns bool) error {
	recs, err := records(nav)
	if err != nil {
		return err
	}
	toks := continued(res.Toks)
	c.Evals(len(recs))
	for i := 0; i < len(recs) || i < len(toks); i++ {
		if i >= len(recs) {
			return fmt.Errorf("token %d missing: want %v", i, fmtTok(toks[i]))
		}
		if i >= len(toks) {
			return fmt.Errorf("surplus token %d: %+v", i, recs[i])
		}
		if err := compareTok(toks[i], recs[i], ns); err != nil {
			return fmt.Errorf("token %d: %w", i, err)
		}
	}
	return nil
}

func fmtTok(t refxml.Tok) string {
	return fmt.Sprintf("{%v off=%d len=%d prefix=%d depth=%d}", t.Kind, t.Off, t.Len, t.Prefix, t.Depth)
}

func isName(k refxml.Kind) bool {
	return k == refxml.StartTag || k == refxml.AttrName || k == refxml.AttrNs
}

func compareTok(t refxml.Tok, r Rec, ns bool) error {
	if common.Token(r.Type) != tokenOf[t.Kind] {
		return fmt.Errorf("type %d, want %v", r.Type, fmtTok(t))
	}
	if int(r.Off) < t.Off || int(r.Off) > t.OffHi {
		return fmt.Errorf("offset %d, want %v", r.Off, fmtTok(t))
	}
	if int(r.Depth) != t.Depth {
		return fmt.Errorf("depth %d, want %v", r.Depth, fmtTok(t))
	}
	if isName(t.Kind) && ns {
		if int(r.Len&0xFFFF) != t.Len {
			return fmt.Errorf("name length %d, want %v", r.Len&0xFFFF, fmtTok(t))
		}
		if t.Prefix >= 0 && int(r.Len>>16) != t.Prefix {
			return fmt.Errorf("prefix length %d, want %v", r.Len>>16, fmtTok(t))
		}
		return nil
	}
	if int(r.Len) != t.Len {
		return fmt.Errorf("length %d, want %v", r.Len, fmtTok(t))
	}
	return nil
}

// errKind names the library's error type at the top of an error, looking through
// internal errors that wrap another one.
func errKind(err error) string {
	var pe *erroring.ParseError
	var ee *erroring.EntityError
	var en *erroring.EncodingError
	var eo *erroring.EOFError
	var ia *erroring.InvalidArgumentError
	var ie *erroring.InternalError
	var ne *erroring.NavigationError
	switch {
	case errors.As(err, &eo):
		return "eof"
	case errors.As(err, &pe):
		return "parse"
	case errors.As(err, &ee):
		return "entity"
	case errors.As(err, &en):
		return "encoding"
	case errors.As(err, &ia):
		return "argument"
	case errors.As(err, &ne):
		return "navigation"
	case errors.As(err, &ie):
		return "internal"
	}
	return fmt.Sprintf("untyped(%T)", err)
}
