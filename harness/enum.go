package main

import "strings"

// Bounded-exhaustive documents: every sequence of up to a number of tokens of a small
// alphabet, placed in a context.

type enumCtx struct {
	name      string
	pre, post string
	toks      []string
	quick     int // longest sequence of the quick tier
	thorough  int
}

var enumCtxs = []enumCtx{
	{"document", "", "", []string{"<a>", "</a>", "<a/>", "x", " ", "<!--c-->", "<?p?>", "<?p v?>", "<!DOCTYPE a>", "<![CDATA[y]]>", "&amp;", "<b>", "</b>", "\xef\xbb\xbf", "<?xml version='1.0'?>"}, 4, 5},
	{"content", "<a>", "</a>", []string{"x", " ", "]", "]>", ">", "<", "&amp;", "&", ";", "<b/>", "<b>", "</b>", "<!--", "-->", "<![CDATA[", "\r"}, 4, 5},
	{"brackets", "<a>", "</a>", []string{"]", ">", "<b/>", "&lt;", "<![CDATA[", "z"}, 6, 7},
	{"markup", "<a><", "></a>", []string{"!", "-", "?", "[", "/", "b", " ", ">", "<", "CDATA[", "]", "xml"}, 5, 6},
	{"start tag", "<a", "></a>", []string{" ", "b", ":", "=", "'", "\"", "/", "1", "<", "&lt;", "\n", "\xc3\xa9"}, 5, 6},
	{"attributes", "<r", "/>", []string{" a='1'", " b='2'", " p:a='3'", " q:a='4'", " xmlns:p='u'", " xmlns:q='u'", " xmlns:q='v'", " xmlns='u'", "\n", " xml:a=''", " xmlns:xml='http://www.w3.org/XML/1998/namespace'"}, 5, 6},
	{"attribute value", "<a b='", "'/>", []string{"&", ";", "#", "x", "3", "8", "a", "lt", "mp", "<", ">", "\"", "]", "\n"}, 4, 5},
	{"reference", "<a>&", "</a>", []string{";", "#", "x", "0", "1", "d", "D", "8", "f", "amp", "lt", "gt", "quot", "apos", "a", " "}, 4, 5},
	{"comment", "<a><!--", "--></a>", []string{"-", ">", "!", "<", "x", "]", "&", " "}, 5, 6},
	{"pi", "<a><?", "?></a>", []string{"x", "m", "l", "M", " ", "?", ">", "p", ":", "-", "\xc3\xa9", "/"}, 5, 6},
	{"prolog pi", "<?", "?><a/>", []string{"x", "m", "l", "X", " ", "?", ">", "p", "\n", "version='1.0'", ";"}, 5, 6},
	{"trailing", "<a/>", "", []string{"<", "!", "-", "--", "?", "p", " ", ">", "?>", "-->", "x", "a/>", "\r"}, 5, 6},
	{"cdata", "<a><![CDATA[", "]]></a>", []string{"]", ">", "<", "&", "x", "[", "\xc3\xa9", "\xff"}, 5, 6},
	{"end tag", "<aa><b:c></b:c", "</aa>", []string{">", " ", "c", "/", "<", ":", "</b", "\n", "x", "\xc3\xa9"}, 5, 6},
	{"declaration", "<?xml", "?><a/>", []string{" ", "version", "=", "'1.0'", "\"1.1\"", "'1.0", " encoding='UTF-8'", " encoding=\"us-ascii\"", " standalone='no'", "standalone", "'yes'", "'", "\n"}, 4, 5},
	{"encoding name", "<?xml version='1.0' encoding='", "'?><a>\x7f</a>", []string{"u", "U", "tf", "TF", "-", "8", "16", "a", "A", "scii", "SCII", "s", "S", "US", "iso", "8859", "1", "le", "x"}, 4, 5},
	{"encoding word", "<?xml version='1.0' encoding='", "'?><a/>", []string{"UTF-8", "utf-8", "ASCII", "ascii", "US-ASCII", "us-ascii", "iso-8859-1", "windows-1252", "UTF-16", "x", "-", "_", ".", ":", " ", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "i", "l", "n", "s", "t", "u", "v", "A", "B", "E", "L", "S", "U", "Z", "\xc3\xa9", "\x00", "'", "\"", "\n", "/", ";", "="}, 2, 3},
	{"doctype", "<!DOCTYPE a", "<a/>", []string{">", " ", "[", "]", "<!ELEMENT a ANY>", "<!--", "-->", "'", "SYSTEM 'x'", "<?p", "?>", "<!ENTITY e \"<\">", "b"}, 5, 6},
	{"bytes", "<a>", "</a>", []string{"\x00", "\x7f", "\x80", "\x9f", "\xbf", "\xc0", "\xc2", "\xe0", "\xa0", "\xed", "\xef", "\xbe", "\xf0", "\x90", "\xf4", "\x8f", "\xf5", "\xff", "\xbb"}, 4, 5},
	{"start bytes", "", "<a/>", []string{"\xef", "\xbb", "\xbf", "\xfe", "\xff", "\x00", " ", "<", "?", "\n", "<?xml version='1.0' encoding='US-ASCII'?>", "<?xml version='1.1'?>", "<!---->", "x"}, 4, 5},
	{"names", "<", "/>", []string{"a", ":", "-", ".", "1", "_", "\xc2\xb7", "\xc3\x97", "\xcc\x80", "\xe2\x80\xbf", "\xef\xb7\x90", "\xf0\x90\x80\x80", " b='1' "}, 4, 5},
	{"deep content", "<a><b><c>", "</c></b></a>", []string{"\r", "\n", " ", "x", "<", "/", "c", ">", "&amp;", "<d/>", "</c>", "]", "\xc3\xa9", "<c>"}, 4, 5},
	{"tree", "<r>", "</r>", []string{"<a>", "</a>", "<b/>", "t", " ", "<a x='1'/>", "<!---->"}, 6, 7},
}

// Enum is a part of the enumeration: the sequences of context Ctx that start with Prefix
// and have Rest further tokens.
type Enum struct {
	Ctx    int   `json:"ctx"`
	Prefix []int `json:"prefix"`
	Rest   int   `json:"rest"`
	Open   bool  `json:"open,omitempty"` // the document ends behind the sequence
	Run    int   `json:"run,omitempty"`  // instead: runs of the token Prefix[0], with every Run-th count between two others
}

// each calls f with every document of the part.
func (e *Enum) each(f func(doc []byte) error) error {
	if e.Ctx < 0 || e.Ctx >= len(enumCtxs) {
		return nil
	}
	x := &enumCtxs[e.Ctx]
	if e.Run > 0 {
		return e.runs(f)
	}
	base := []byte(x.pre)
	for _, k := range e.Prefix {
		base = append(base, x.toks[k]...)
	}
	var rec func(b []byte, rest int) error
	rec = func(b []byte, rest int) error {
		if rest == 0 {
			doc := make([]byte, 0, len(b)+len(x.post))
			if e.Open {
				return f(append(doc, b...))
			}
			return f(append(append(doc, b...), x.post...))
		}
		for _, tk := range x.toks {
			if err := rec(append(b[:len(b):len(b)], tk...), rest-1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(base, e.Rest)
}

// runs repeats one token, alone, behind or before another one, and between two.
func (e *Enum) runs(f func(doc []byte) error) error {
	x := &enumCtxs[e.Ctx]
	a := x.toks[e.Prefix[0]]
	post := x.post
	if e.Open {
		post = ""
	}
	for i, k := range pumpCounts {
		run := strings.Repeat(a, k)
		one := func(before, behind string) error { return f([]byte(x.pre + before + run + behind + post)) }
		if err := one("", ""); err != nil {
			return err
		}
		for bi, b := range x.toks {
			if err := one("", b); err != nil {
				return err
			}
			if err := one(b, ""); err != nil {
				return err
			}
			for ci, c := range x.toks {
				if (i+bi+ci*7+e.Prefix[0])%e.Run != 0 {
					continue
				}
				if err := one(b, c); err != nil {
					return err
				}
				if err := one("", b+c); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// enumRuns lists the runs.
func enumRuns(tier string) []*Enum {
	step := 12
	if tier == "thorough" {
		step = 1
	}
	var out []*Enum
	for k := range enumCtxs {
		for a := range enumCtxs[k].toks {
			out = append(out, &Enum{Ctx: k, Prefix: []int{a}, Run: step})
			if enumCtxs[k].post != "" {
				out = append(out, &Enum{Ctx: k, Prefix: []int{a}, Run: step, Open: true})
			}
		}
	}
	return out
}

// enumParts splits the enumeration of the tier; less shortens every sequence.
func enumParts(tier string, less int, only ...string) []*Enum {
	var out []*Enum
	for k := range enumCtxs {
		x := &enumCtxs[k]
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				ok = ok || o == x.name
			}
			if !ok {
				continue
			}
		}
		depth := x.quick
		if tier == "thorough" {
			depth = x.thorough
		}
		depth -= less
		out = append(out, enumSplit(k, depth, false)...)
	}
	return out
}

// enumSplit splits the sequences of a context of up to a length.
func enumSplit(k, depth int, open bool) []*Enum {
	var out []*Enum
	x := &enumCtxs[k]
	for l := 0; l <= min(depth, 2); l++ {
		out = append(out, &Enum{Ctx: k, Rest: l, Open: open})
	}
	for l := 3; l <= depth; l++ {
		for a := range x.toks {
			if l == 3 {
				out = append(out, &Enum{Ctx: k, Prefix: []int{a}, Rest: 2, Open: open})
				continue
			}
			for b := range x.toks {
				out = append(out, &Enum{Ctx: k, Prefix: []int{a, b}, Rest: l - 2, Open: open})
			}
		}
	}
	return out
}

// enumOpen lists the sequences that nothing follows; less shortens every sequence.
func enumOpen(tier string, less int) []*Enum {
	var out []*Enum
	for k, x := range enumCtxs {
		if x.post == "" {
			continue
		}
		depth := x.quick
		if tier == "thorough" {
			depth = x.thorough
		}
		out = append(out, enumSplit(k, depth-less, true)...)
	}
	return out
}
