package main

import (
	"fmt"
	"strings"

	"verif/harness/refxml"
)

// Scaling: documents in which one thing is long or frequent — names that agree for a long
// way, thousands of attributes, declarations or children, long values, many lines, much
// white space, a large offset — in sizes around the powers of two, each with what can
// be right or wrong at its far end. What is right is for the reference parser to say.

// Scale is a part of the family: the documents of one kind and size.
type Scale struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Part int    `json:"part,omitempty"`
}

// far lists places in a thing of n units: the ends and around the powers of two.
func far(n int) []int {
	var out []int
	seen := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	add(0)
	add(n - 1)
	add(n - 2)
	add(n / 2)
	for p := 4; p <= n; p *= 2 {
		add(p - 1)
		add(p)
	}
	return out
}

func (s *Scale) each(f func(doc []byte) error) error {
	if s.N < 0 || s.N > 1<<28 {
		return nil
	}
	var err error
	put := func(parts ...string) {
		if err == nil {
			err = f([]byte(strings.Join(parts, "")))
		}
	}
	switch s.Kind {
	case "twins":
		s.twins(put)
	case "uris":
		s.uris(put)
	case "attributes":
		s.attrs(put)
	case "declarations":
		s.decls(put)
	case "children":
		s.children(put)
	case "values":
		s.values(put)
	case "lines":
		s.lines(put)
	case "space":
		s.space(put)
	case "offsets":
		s.offsets(put)
	case "tokens":
		s.tokens(put)
	case "edges":
		s.edges(put)
	case "nth":
		s.nth(put)
	case "counts":
		s.counts(put)
	case "zeros":
		s.zeros(put)
	case "widths":
		s.widths(put)
	case "chars":
		if s.Part == 0 {
			s.chars(put)
		} else {
			s.strangers(put)
		}
	}
	return err
}

// charGroup is the number of code points of one part of the characters.
const charGroup = 1 << 14

// chars writes documents with every character of a group in every place it may stand in.
func (s *Scale) chars(put func(...string)) {
	for lo := rune(s.N) * charGroup; lo < rune(s.N+1)*charGroup && lo <= 0x10FFFF; lo += 1024 {
		var text, name, starts, refs, attrs, pis, raw, half, open strings.Builder
		names := 0
		flush := func() {
			if name.Len() > 0 {
				n := name.String()
				put("<n", n, "><m", n, " k", n, "='v'/><?p", n, " v?></n", n, ">")
				put("<?p", n, "?><p:n", n, " xmlns:p='u' p:k", n, "='v' k", n, "=''>t</p:n", n, "><?q", n, " v?>")
				if len(n) < 500 {
					put("<p", n, ":a xmlns:p", n, "='u' p", n, ":b='v'><p", n, ":a/></p", n, ":a>")
				}
			}
			name.Reset()
			names = 0
		}
		for r := lo; r < lo+1024; r++ {
			if r < 0x20 || r >= 0xD800 && r <= 0xDFFF || r == 0xFFFE || r == 0xFFFF {
				continue
			}
			if r%2 == 0 {
				fmt.Fprintf(&refs, "&#%d;", r)
			} else {
				fmt.Fprintf(&refs, "&#x%x;", r)
			}
			if !strings.ContainsRune("<>&]'\"-?%", r) {
				text.WriteRune(r)
			}
			x := r
			if strings.ContainsRune("<&]-?%'\"", r) {
				x = 'z'
			}
			fmt.Fprintf(&raw, "<![CDATA[%c]]><!--x%cx--><?p %c?>", x, x, x)
			fmt.Fprintf(&half, "<![CDATA[%c]>%c]]]><!--%c->%c-%c--><?p %c>%c??>%c]]%c>", x, x, x, x, x, x, x, x, x)
			fmt.Fprintf(&open, "%c>%c]>%c->%c/>", x, x, x, x)
			if r == ':' {
				continue
			}
			if refxml.IsNameStart(r) {
				fmt.Fprintf(&starts, "<%c/>", r)
				fmt.Fprintf(&attrs, " %c='%x'", r, r)
				fmt.Fprintf(&pis, "<?%c %c?>", r, r)
			}
			if refxml.IsName(r) {
				name.WriteRune(r)
				if names++; names == 120 {
					flush()
				}
			}
		}
		flush()
		t := text.String()
		put("<a>", t, "</a>")
		put("<a b=\"", t, "\" c='", t, "'>x</a>")
		put("<!--", t, "--><a><!--", t, "--></a><!--", t, "-->")
		put("<a><![CDATA[", t, "]]></a>")
		put("<?p ", t, "?><a><?p ", t, "?></a><?p ", t, "?>")
		put("<!DOCTYPE a [<!ENTITY e '", t, "'><!--", t, "-->]><a/>")
		put("<a b='", refs.String(), "'>", refs.String(), "</a>")
		put("<a>", raw.String(), "</a>")
		put("<a>", half.String(), "</a>")
		for _, d := range []string{"<![CDATA[", "<!--", "<?p "} {
			put("<a>", d, open.String(), "</a>")
		}
		put("<a b='", strings.ReplaceAll(open.String(), ">", "\""), "\"/>")
		put("<a b=\"", strings.ReplaceAll(open.String(), ">", "'"), "'/>")
		put("<!DOCTYPE a [<!ENTITY e '", open.String(), ">]><a/>")
		if starts.Len() > 0 {
			put("<a>", starts.String(), "</a>")
			put("<a", attrs.String(), "/>")
			put("<a>", pis.String(), "</a>", pis.String())
		}
	}
}

// widths writes names and prefixes of n bytes that end and go on in characters of every
// width.
func (s *Scale) widths(put func(...string)) {
	for _, fill := range []string{"p", "\xc3\xa9"} {
		for _, last := range []string{"p", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x90\x90\x80"} {
			k := s.N - len(last)
			if k < 0 || k%len(fill) != 0 {
				continue
			}
			n := strings.Repeat(fill, k/len(fill)) + last
			put("<", n, " ", n, "='v'><", n, "/><?", n, "?><?", n, " v?></", n, ">")
			for _, l := range []string{"a", "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x90\x90\x80", "ab", "a\xf0\x90\x90\x80", "\xf0\x90\x90\x80a"} {
				put("<", n, ":", l, " xmlns:", n, "='u' ", n, ":", l, "='v' ", l, "=''><", n, ":", l, "/></", n, ":", l, ">")
				put("<a xmlns:", n, "='u' ", n, ":", l, " = 'v' ><b ", n, ":", l, "\n='v'/></a>")
				put("<", l, ":", n, " xmlns:", l, "='u' ", l, ":", n, "='v'>t</", l, ":", n, ">")
				put("<a xmlns:", n, "='u'><b ", n, "x:", l, "='v'/></a>")
				put("<", n, ":", l, " xmlns:", n, "='u' ", n, ":", l, "='v' xmlns:q='u' q:", l, "=''/>")
			}
		}
	}
}

// strangers writes documents with single characters of a group in places they may not stand
// in; all of them up to U+33FF, a sample of the others.
func (s *Scale) strangers(put func(...string)) {
	for r := rune(s.N) * charGroup; r < rune(s.N+1)*charGroup && r <= 0x10FFFF; r++ {
		if s.Part == 1 && r >= 0x3400 && r%61 != 17 && r%1024 > 1 && r%1024 < 1022 && r%0x800 != 0 {
			continue
		}
		c := string(r)
		invalid := r == 0xFFFE || r == 0xFFFF
		if r >= 0xD800 && r <= 0xDFFF {
			invalid = true
			c = string([]byte{0xED, 0x80 | byte(r>>6&0x3F), 0x80 | byte(r&0x3F)})
		}
		if !refxml.IsNameStart(r) || invalid {
			put("<", c, "/>")
			put("<a ", c, "='v'/>")
			put("<a><?", c, " v?></a>")
			put("<p:", c, " xmlns:p='u'/>")
		}
		if !refxml.IsName(r) || invalid {
			put("<a", c, "/>")
			put("<a b", c, "='v'/>")
			put("<?p", c, " v?><a/>")
			put("<a/><?p", c, "?>")
			put("<a></a", c, ">")
			put("<a", c, "></a", c, ">")
			put("<a b='v'", c, "/>")
			put("<a b", c, "'v'/>")
		}
		if invalid {
			for _, d := range [][2]string{{"<a>", "</a>"}, {"<a b='", "'/>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><?p ", "?></a>"}, {"<!DOCTYPE a [<!--", "-->]><a/>"}, {"<a/><!--", "-->"}, {"<a/>", ""}, {"<!DOCTYPE a [<!ENTITY e '", "'>]><a/>"}} {
				put(d[0], c, d[1])
				put(d[0], "x", c, "x", d[1])
			}
			put("<a>", fmt.Sprintf("&#x%X;", r), "</a>")
			put("<a b='", fmt.Sprintf("&#%d;", r), "'/>")
		}
		if r > 0x20 && r%16 == 5 || r < 0x300 {
			put(c, "<a/>")
			put("<a/>", c)
			put("<a>&", c, ";</a>")
			put("<a>&#", c, ";</a>")
			put("<a>&#x", c, ";</a>")
			put("<a>&am", c, ";</a>")
			put("<", c, "a/>")
			put("<a>]]", c, "</a>")
			if c != "<" && c != "&" {
				put("<a>", c, "]]></a>")
				put("<a>]]>", c, "</a>")
				put("<a>]]", c, ">]]></a>")
				put("<a><!--", c, "--", c, "--></a>")
				put("<a><!--", c, "---></a>")
				put("<a b='", c, "<'/>")
				put("<a b='", c, "& '/>")
				put("<a>", c, "& </a>")
				put("<a>", c, "&;</a>")
				put("<a>", c, "</b></a>")
				put("<a b='", c, "' b='", c, "'/>")
			}
			put("<a><!", c, "--x--></a>")
			put("<a><!--x--", c, "></a>")
		}
	}
}

// pairs calls f with names of n bytes: equal, or different in one place only.
func pairs(n int, f func(a, b string)) {
	for _, fill := range []string{"n", "\xc3\xa9"} {
		u := len(fill)
		if n < 2*u {
			continue
		}
		base := strings.Repeat(fill, n/u) + strings.Repeat("x", n%u)
		f(base, base)
		f(base, base+"x")
		f(base+"x", base)
		f(base, base[:len(base)-1-(u-1)*(1-n%u)])
		for _, k := range far(n / u) {
			for _, e := range []string{"N", "m", "\xc3\xa8", "\xc4\xa9"} {
				if len(e) == u {
					f(base, base[:k*u]+e+base[k*u+u:])
				}
			}
		}
	}
}

func (s *Scale) twins(put func(...string)) {
	pairs(s.N, func(a, b string) {
		put("<", a, ">t</", b, ">")
		put("<r><", a, " x=''><c/></", b, "><", a, "/></r>")
		put("<r ", a, "='1' ", b, "='2'/>")
		put("<r y='' ", a, "='1' m=\"\" ", b, " = '2' z=''></r>")
		put("<r xmlns:p='u' xmlns:q='u' p:", a, "='' q:", b, "=''/>")
		put("<r xmlns:p='u' p:", a, "='' p:", b, "=''/>")
		put("<r><?", a, "?><", b, "/></r>")
		if s.N <= 520 {
			put("<r xmlns:", a, "='u'><", b, ":e/></r>")
			put("<r xmlns:", a, "='u'><e ", b, ":x=''/></r>")
			put("<", b, ":r xmlns:", a, "='u' ", a, ":x=''></", b, ":r>")
			put("<r xmlns:", a, "='u' xmlns:", b, "='v' ", a, ":x='' ", b, ":x=''/>")
			put("<r xmlns:", a, "='u'><e xmlns:", b, "='u' ", a, ":x='' ", b, ":x=''/></r>")
			put("<r xmlns:", b, "='u'><e xmlns:", a, "='v' ", a, ":y='' ", b, ":x=''><", b, ":f/></e></r>")
		}
	})
}

func (s *Scale) uris(put func(...string)) {
	pairs(s.N, func(a, b string) {
		put("<r xmlns:p='", a, "' xmlns:q='", b, "' p:x='' q:x=''/>")
		put("<r xmlns:p='", a, "'><e xmlns:q='", b, "' q:x='' p:x=''/></r>")
		put("<r xmlns:p='", a, "&amp;' xmlns:q='", b, "&#38;' p:x='' q:x=''/>")
		put("<r xmlns:p='&#x6e;", a[1:], "' xmlns:q='", b, "' p:x='' q:x=''/>")
	})
}

func (s *Scale) attrs(put func(...string)) {
	list := func(format string, n int) []string {
		out := make([]string, n)
		for i := range out {
			out[i] = fmt.Sprintf(format, i)
		}
		return out
	}
	doc := func(open string, l []string, dup int, format, rest string) {
		d := ""
		if dup >= 0 {
			d = fmt.Sprintf(format, dup)
		}
		put(open, strings.Join(l, ""), d, rest)
	}
	n := s.N
	plain, pre := list(" a%d=''", n), list(" p:a%d=''", n)
	ns := list(" xmlns:a%d='u'", n)
	places := append([]int{-1, n}, far(n)...)
	for i, k := range places {
		doc("<r", plain, k, " a%d=''", "/>")
		doc("<r xmlns:p='u' xmlns:q='u'", pre, k, " q:a%d=''", "/>")
		doc("<r xmlns:p='u' xmlns:q='v'", pre, k, " q:a%d=''", "/>")
		doc("<r xmlns:p='u'><e ", append(append([]string(nil), plain[:n/2]...), pre[n/2:]...), k, " a%d=''", "/></r>")
		if i%2 == 0 {
			doc("<r", ns, k, " xmlns:a%d='v'", "></r>")
			doc("<r", pre, k, " z%d=''", " xmlns:p='u'/>")
		}
		// the repeated one comes from the middle
		if k > 0 && k < n {
			put("<r", strings.Join(plain[:k], ""), fmt.Sprintf(" a%d=''", k/2), strings.Join(plain[k:], ""), "/>")
		}
	}
	// many elements with attributes of the same names
	put("<r xmlns:p='u'>", strings.Repeat("<e a='' p:a=''/>", n), "<e a='' a=''/></r>")
	put("<r xmlns:p='u'>", strings.Repeat("<e a='' p:a=''/>", n), "<e a='' p:a=''/></r>")
	put("<r xmlns:p='u' xmlns:q='u'>", strings.Repeat("<e p:a=''/>", n), "<e p:a='' q:a=''/></r>")
}

func (s *Scale) decls(put func(...string)) {
	n := s.N
	var on strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&on, " xmlns:p%d='u%d'", i, i)
	}
	var nest strings.Builder
	levels := min(n, 200)
	for i := 0; i < n; i++ {
		if i%(n/levels) == 0 {
			if i > 0 {
				nest.WriteString(">")
			}
			nest.WriteString("<e")
		}
		fmt.Fprintf(&nest, " xmlns:p%d='u%d'", i, i)
	}
	nest.WriteString(">")
	closes := strings.Repeat("</e>", strings.Count(nest.String(), "<e"))
	for _, k := range append([]int{n}, far(n)...) {
		p := fmt.Sprintf("p%d", k)
		put("<r", on.String(), "><", p, ":e/></r>")
		put("<r", on.String(), "><e ", p, ":x=''/></r>")
		put("<r", on.String(), " ", p, ":x=''/>")
		put("<", p, ":r", on.String(), "><e/></", p, ":r>")
		put(nest.String(), "<", p, ":e ", p, ":x=''/>", closes)
		put("<r", on.String(), "><e xmlns:", p, "='v' xmlns:q='v' ", p, ":x='' q:x=''/></r>")
		put("<r", on.String(), "><e xmlns:q='", strings.Replace(p, "p", "u", 1), "' ", p, ":x='' q:x=''/></r>")
		put("<r", on.String(), "><e/></r")
		put("<r><e", on.String(), "/><e ", p, ":x=''/></r>")
		put("<r><e", on.String(), "><f/></e><", p, ":e/></r>")
	}
	one := "<e xmlns:p='u'><p:f p:x=''/></e>"
	put("<r>", strings.Repeat(one, n), "</r>")
	put("<r>", strings.Repeat(one, n), "<p:g/></r>")
	put("<r>", strings.Repeat(one, n), "<g p:x=''/></r>")
	put("<r xmlns:q='v'>", strings.Repeat(one, n), "<q:g q:x=''/></r>")
	put("<r xmlns:p='v'>", strings.Repeat(one, n), "<p:g/><e xmlns:q='u' p:x='' q:x=''/></r>")
	put("<r xmlns:p='v'>", strings.Repeat(one, n), "<p:g/><e xmlns:q='v' p:x='' q:x=''/></r>")
}

func (s *Scale) children(put func(...string)) {
	n := s.N
	for level := 1; level <= 8; level++ {
		open, end := "", ""
		for i := 0; i < level; i++ {
			open += fmt.Sprintf("<l%d>", i)
			end = fmt.Sprintf("</l%d>", i) + end
		}
		for _, u := range []string{"<d/>", "<d>t</d>", "<d><x/></d>", "<d/><!--c-->t", "<d><x><y/></x><x/></d><?p?>"} {
			if n*len(u) > 200000 && u != "<d/>" {
				continue
			}
			put(open, "<first/>", strings.Repeat(u, n), "<last><z/></last>", end)
			// and in a document whose other branches are small
			if u == "<d/>" || level < 5 {
				put("<w><l0><s/></l0>", open, strings.Repeat(u, n), end, "<l0><s/><s><t/></s></l0></w>")
			}
		}
	}
}

func (s *Scale) values(put func(...string)) {
	n := s.N
	for i, u := range []string{"x", "\xc3\xa9", "ab\n ", "]] ", "- ", "? ", "\r\n", "%d%s", "&amp;", "&#65;"} {
		if i%4 != s.Part%4 && n > 5000 {
			continue
		}
		v := strings.Repeat(u, n/len(u)) + strings.Repeat("x", n%len(u))
		for _, d := range [][2]string{
			{"<a>", "</a>"}, {"<a>", "&#233;</a>"}, {"<a>", "<b/>t</a>"}, {"<a><b><c><d><e/>", "<f/><g/></d></c></b></a>"}, {"<a>&lt;", "</a>"}, {"<a>", "\x01\x02</a>"},
			{"<a b='", "'/>"}, {"<a b='", "&#x10FFFF;' c='d'>t</a>"}, {"<a><b c=\"", "\"/><d/></a>"},
			{"<a><!--", "--></a>"}, {"<a/><!--", "-->"}, {"<!--", "--><a/>"}, {"<a><b/><!--", "-->t<c/></a>"},
			{"<a><![CDATA[", "]]></a>"}, {"<a>t<![CDATA[", "]]>t<b/></a>"},
			{"<a><?p ", "?></a>"}, {"<a/><?p ", "?>"}, {"<?p ", "?><a/>"}, {"<?p ", "?><?q?><a/>"},
			{"<!DOCTYPE a [<!--", "-->]><a/>"}, {"<!DOCTYPE a [<!ENTITY e '", "'>]><a/>"}, {"<!DOCTYPE a [<?p ", "?>]><a>t</a>"},
			// wrong at the far end
			{"<a>", "</b>"}, {"<a>", ""}, {"<a>", "<"}, {"<a>", "&"}, {"<a>", "]]></a>"}, {"<a>", "\xff</a>"}, {"<a>", "\x00</a>"}, {"<a>", "&b;</a>"}, {"<a>\n", "<b></c>\n</a>"}, {"<a>", "<b c='' c=''/></a>"},
			{"<a b='", "<'/>"}, {"<a b='", ""}, {"<a b='", "'c=''/>"}, {"<a b='", "' b=''/>"}, {"<a b='", "&#0;'/>"}, {"<a b='", "\xef\xbf\xbf'/>"}, {"<a b='", "\"/>"},
			{"<a><!--", ""}, {"<a><!--", "--"}, {"<a><!--", "--->"}, {"<a><!--", "\x00--></a>"}, {"<a/><!--", ""}, {"<a/><!--", "-- >"}, {"<a/><!--", "->"}, {"<!--", ""}, {"<a/><!--", "\xc3-->"},
			{"<a><![CDATA[", ""}, {"<a><![CDATA[", "]]"}, {"<a><![CDATA[", "]></a>"}, {"<a><![CDATA[", "\xef\xbf\xbe]]></a>"},
			{"<a><?p ", ""}, {"<a><?p ", "?"}, {"<a><?p ", "\x00?></a>"}, {"<a/><?p ", ""}, {"<a/><?p ", "?"}, {"<a/><?p ", "\xff?>"}, {"<?p ", ""}, {"<?p ", ">"},
			{"<!DOCTYPE a [<!--", ""}, {"<!DOCTYPE a '", ""}, {"<!DOCTYPE a '", "'"}, {"<!DOCTYPE a [<?p ", "\x00?>]><a/>"}, {"<!DOCTYPE a [<!--", "-->]>"},
			{"<a>t</a>\n<!--", "--><b/>"}, {"<a>t</a>\n<?p ", "?>t"},
		} {
			put(d[0], v, d[1])
		}
	}
}

// zeros writes references with many digits.
func (s *Scale) zeros(put func(...string)) {
	n := s.N
	long := func(d string) string { return strings.Repeat(d, n) }
	for _, x := range []string{"&#", "&#x"} {
		hex := x == "&#x"
		for _, d := range []string{"65;", "41;", "9;", "a;", "A;", "10FFFF;", "1114111;", "110000;", "1114112;", "D800;", "55296;", "xFFFE;", ";", "", "x;", "X41;", " 65;", "65 ;", "-65;", "65", "0;"} {
			if !hex && strings.ContainsAny(d, "aFDA") && n > 40 {
				continue
			}
			r := x + long("0") + d
			for _, c := range [][2]string{
				{"<a>", "</a>"}, {"<a>t", "t</a>"}, {"<a b='", "'/>"}, {"<a b=\"x", "y\" c=''>u</a>"}, {"<a><b/>", "<c/></a>"}, {"<a><!--c-->", "<![CDATA[&#0;]]></a>"}, {"<?xml version='1.0' encoding='us-ascii'?><a b='", "'>t</a>"},
				{"<a>]", "]></a>"}, {"<a xmlns:p='", "' xmlns:q='A' p:x='' q:x=''/>"}, {"<a xmlns:p='u", "' xmlns:q='uA' p:x='' q:x=''><p:b/></a>"}, {"<a xmlns='", "'/>"},
				{"<a xmlns:p='http://www.w3.org/2000/xmlns", "'/>"}, {"<a>\n", "\n<b></a>"}, {"<a>", ""},
			} {
				put(c[0], r, c[1])
			}
			put("<a xmlns:p='", r, "' xmlns:q='", r, "' p:x='' q:x=''/>")
			put("<a>", r, r, "</a>")
		}
		for _, d := range []string{"1", "9", "f", "F", "10", "01", "80000000", "4294967296", "100000041"} {
			put("<a>", x, long(d), ";</a>")
			put("<a b='", x, long(d), ";'/>")
			put("<a>", x, long(d), "</a>")
		}
	}
	for _, u := range []string{"&", "&#", "&#x", ";", "#", "&;", "&a", "amp;", "&amp", "&amp;", "&#65;", "&#x41;", "&lt;", "&quot;"} {
		put("<a>", long(u), "</a>")
		put("<a b='", long(u), "'/>")
		put("<a>&", long(u), ";</a>")
	}
}

func (s *Scale) lines(put func(...string)) {
	n := s.N
	for _, u := range []string{"\n", "\r\n", "x\n", "\n\n\r", "\r\n\n"} {
		v := strings.Repeat(u, n/strings.Count(u, "\n"))
		for _, d := range [][2]string{
			{"<a>", "</b>"}, {"<a>", "&b;</a>"}, {"<a>", "<b c='1' c='2'/></a>"}, {"<a>", "<p:b/></a>"}, {"<a>", "<b p:c=''/></a>"},
			{"<a>", "<b xmlns:p='u' xmlns:q='u' p:c='' q:c=''/></a>"}, {"<a>", "<!-- -- --></a>"}, {"<a>", "<b>\n</c></a>"}, {"<a>", "]]></a>"},
			{"<a><!--", "--></b>"}, {"<a/><!--", "--><b/>"}, {"<a><![CDATA[", "]]></b>"}, {"<a><?p ", "?></b>"}, {"<a b='", "' b=''/>"},
			{"<a b='", "'\n c></a>"}, {"<!DOCTYPE a [<!--", "-->]><a></b>"}, {"<a>", "</a>\n<b/>"}, {"<a>", "</a>"},
		} {
			put(d[0], v, d[1])
		}
		if !strings.Contains(u, "x") {
			put("<a", v, "/>")
			put("<a", v, "b='' b=''/>")
			put("<a", v, "b=''\n", v, "c=''", v, "<>")
			put("<a></a", v, "b>")
			put(v, "<a></b>")
			put("<a/>", v, "<b/>")
			put("<?xml version='1.0'", v, "?><a></b>")
		}
	}
}

// spaceDocs have white space wherever there can be any; '~' stands for space that may be
// missing, '^' for space that may not.
var spaceDocs = []string{
	"<?xml^version~=~'1.0'^encoding~=~'utf-8'^standalone~=~'yes'~?>~<!DOCTYPE^a~[~<!ELEMENT^a^ANY~>~]~>~<!--~c~-->~<?p^v~?>~<a^b~=~'~c~'^d~=~\"~\"~>~t~<e~/>~<f^g~=~''~/>~<![CDATA[~]]>~<h~>~</h~>~<?q~?>~<!--~-->~&lt;~</a~>~<!--~d~-->~<?r^w~?>~<?s~?>~",
	"~<a~/>~",
	"<p:a^xmlns:p~=~'u'^p:b~=~''^xmlns~=~'v'~><c^p:d~=~'~'~/></p:a~>",
	"<a~>~<b~>~<c~>~<d~>~<e~/>~</d~>~</c~>~</b~>~</a~>",
	"<?xml^version='1.0'^encoding='us-ascii'~?><a>~]~</a>",
	"<?xml^version='1.1'^standalone='no'~?>~<a/>",
	// no white space goes here
	"<~a/>", "<a/~>", "<~/a>", "<a><~/a>", "<a></~a>", "<~!--c--><a/>", "<!~--c--><a/>", "<!--c--~><a/>", "<?~p v?><a/>", "<?p v?~><a/>", "<a><![~CDATA[]]></a>", "<a><![CDATA~[]]></a>", "<a>&~lt;</a>", "<a>&#~65;</a>",
}

func (s *Scale) space(put func(...string)) {
	for _, d := range spaceDocs {
		var marks []int
		for i := range d {
			if d[i] == '~' || d[i] == '^' {
				marks = append(marks, i)
			}
		}
		plain := func(s string) string {
			return strings.ReplaceAll(strings.ReplaceAll(s, "~", ""), "^", " ")
		}
		for i, m := range marks {
			if s.N > 5000 && i%4 != s.Part {
				continue
			}
			for _, u := range []string{" ", "\n", "\t", "\r\n", " \n"} {
				put(plain(d[:m]), strings.Repeat(u, s.N/len(u)), plain(d[m+1:]))
			}
		}
	}
}

// everything in one element, to be found behind a large offset
const offsetBody = "<b c='1' d=\"&amp;\" e='2'/>t&#65;t<!--c--><p:f xmlns:p='u' xmlns:q='v' p:g='' q:g='' h=''><i><j><k><l/><l>x</l></k></j><j/></i></p:f><?m n?><?m?><![CDATA[ ]] ]]>\r\nu\n<\xc3\xa9 \xc3\xa8='\xe6\x97\xa5'/>"

func (s *Scale) offsets(put func(...string)) {
	pad := strings.Repeat("p", s.N)
	switch s.Part {
	case 0:
		put("<!--", pad, "--><?p v?><a>", offsetBody, "</a><!--d--><?q w?><?r?>\n")
	case 1:
		put("<a>", pad, offsetBody, "</a><!--d--><?q w?>")
	case 2:
		put("<a b='c'><![CDATA[", pad, "]]>", offsetBody, "</a><?q?>")
	case 3:
		put(strings.Repeat("\n", s.N), "<a>\n", offsetBody, "\n<b></c></a>")
	case 4:
		put("<a>", pad, "<e xmlns:q='u'><pppppppppppppppppppp:f/></e></a>")
	case 5:
		put("<a>", pad, "<e xmlns:q='u'><f pppppppppppppppppppp:g=''/></e></a>")
	case 6:
		put("<a xmlns:p='u'><!--", pad, "--><e xmlns:q='u' p:x='' q:x=''/></a>")
	case 7:
		put("<a><b c=''/>", pad, "<d e='' f='' e=''/></a>")
	case 8:
		put("<a><b>", pad, "<c/>\n</d></b></a>")
	case 9:
		put("<a>", pad, "\n&e;</a>")
	case 10:
		put("<a>", pad, "</a><!-- -- -->")
	case 11:
		put("<a>", pad, "<p:b xmlns:p='u'></p:c></a>")
	case 12:
		put("<a><b/><c><d><e/>", pad, "<f/><![CDATA[", pad, "]]><g><h/></g><!--", pad, "--><i/>", pad, pad, "<j/></d></c><k/></a>")
	case 13:
		put("<a><b><c><d><e><f/>", pad, "<g/></e><h/></d>", pad, "<i/></c><j/><![CDATA[", pad, pad, "]]></b><k/><!--", pad, "--></a>")
	}
}

const offsetVariants = 14

func (s *Scale) tokens(put func(...string)) {
	n := s.N
	switch s.Part {
	case 0:
		put("<a><b><c>", strings.Repeat("<d/>", n), "<e/></c><f/></b><g><h/></g></a>")
	case 1:
		put("<a><b>", strings.Repeat("<d/>", n), "<e><f/></e></b><g/></a>")
	case 2:
		put("<a>", strings.Repeat("<d/>", n), "<e><f><g/></f></e></a>")
	case 3:
		put("<a><b><c><d>", strings.Repeat("<e/>", n), "<f/></d><g/></c></b></a>")
	}
}

// nth has each kind of token, and each kind of error, as the N-th token or near it.
func (s *Scale) nth(put func(...string)) {
	for i := -3; i <= 1; i++ {
		for k, p := range []string{"<!--c-->", "<?p?><c/>", "<?p q?>", "t<c/>", "<![CDATA[x]]>", "<c d='e'/>", "<c d='e' f='g'>h</c>", "<c xmlns='u'/>", "<c xmlns:p='u' p:q=''/>", "<c><d><e><f/></e></d></c>",
			"<c d='' d=''/>", "<p:c/>", "</b>", "&x;", "<!--", "<c", ""} {
			if s.N <= 5000 || (k+i)&3 == s.Part&3 {
				put("<a>", strings.Repeat("<b/>", max(0, s.N-2+i)), p, "</a><!--d-->")
			}
		}
	}
}

// counts repeats a chain of elements at some level, closes some levels and goes on: the
// numbers of elements at each level matter to what finds them.
func (s *Scale) counts(put func(...string)) {
	names := []string{"r", "a", "b", "c", "d", "e", "f", "g", "h", "i"}
	chain := func(level, n int) string {
		out, end := "", ""
		for k := level; k < level+n; k++ {
			out += "<" + names[k] + ">"
			end = "</" + names[k] + ">" + end
		}
		return out + end
	}
	for base := 1; base <= 5; base++ {
		for deep := 1; deep <= 5 && base+deep <= 8; deep++ {
			if s.N*deep > 1500 && (base+deep)%3 != 0 {
				continue
			}
			units := strings.Repeat(chain(base, deep), s.N)
			open, ends := "", []string{""}
			for k := 0; k < base; k++ {
				open += "<" + names[k] + ">"
				ends = append(ends, ends[k]+"</"+names[base-1-k]+">")
			}
			for up := 0; up < base; up++ {
				rest := ends[base][len(ends[up]):]
				for tail := 1; tail <= 3; tail += 2 {
					put(open, units, ends[up], strings.ToUpper(chain(base-up, tail)), rest)
				}
				put(open, "<x/>", units, ends[up], chain(base-up, 2), units[:0], "<y><z/></y>", rest)
			}
		}
	}
}

// edges put what takes several bytes, or changes, just at N bytes of a value.
func (s *Scale) edges(put func(...string)) {
	v := strings.Repeat("v", s.N)
	for _, u := range []string{"&#233;", "&lt;", "&#x10FFFF;&gt;", "\xc3\xa9", "\xf0\x90\x80\x80\xe6\x97\xa5", "\rx", "\r", "]]", "'", "--", "?", "&#x0;", "&x;", "\xc3", "<", "]]>"} {
		for i, d := range [][2]string{{"<a>", "</a>"}, {"<a>", "t&amp;u<b c='d'/>w</a>"}, {"<a b=\"", "\"/>"}, {"<a><b c=\"", "x&#65;\" d=''>t</b></a>"}, {"<a><!--", "--></a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><?p ", "?></a>"}, {"<a>", ""}, {"<a/><!--", "-->"}, {"<a b=\"", ""}, {"<!--", ""}, {"<a><?p ", ""}} {
			if s.N < 5000 || i%4 == s.Part%4 {
				put(d[0], v, u, d[1])
			}
		}
	}
}

// scaleParts lists the parts; kinds chooses some of them.
func scaleParts(tier string, kinds ...string) []*Scale {
	var out []*Scale
	has := func(k string) bool {
		if len(kinds) == 0 {
			return true
		}
		for _, x := range kinds {
			if x == k {
				return true
			}
		}
		return false
	}
	add := func(kind string, parts int, sizes ...int) {
		if !has(kind) {
			return
		}
		for _, n := range sizes {
			p := parts
			if n <= 5000 && (kind == "values" || kind == "space") {
				p = 1
			}
			if parts == offsetVariants && n > 1<<22 {
				p -= 2 // the last ones are several times that size
			}
			for i := 0; i < p; i++ {
				out = append(out, &Scale{kind, n, i})
			}
		}
	}
	thorough := tier == "thorough"
	powers := func(lo, hi int, offs ...int) []int {
		var l []int
		for k := lo; k <= hi; k++ {
			for _, o := range offs {
				l = append(l, 1<<k+o)
			}
		}
		return l
	}
	add("twins", 1, powers(3, 10, -1, 0, 1, 40)...)
	add("twins", 1, 100, 200, 600, 1500, 2000, 2040, 2046, 2047, 2048)
	add("widths", 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 383, 384, 509, 510, 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048)
	for k := 0; k <= 0x10FFFF/charGroup; k++ {
		add("chars", 2, k)
		if thorough && has("chars") {
			out = append(out, &Scale{"chars", k, 2})
		}
	}
	if thorough {
		for k := 1; k <= 300; k++ {
			add("zeros", 1, k)
		}
		add("zeros", 1, powers(9, 16, -1, 0, 1)...)
		add("nth", 4, powers(6, 17, 0)...)
		add("counts", 1, powers(6, 12, -1, 0, 1)...)
		for k := 1; k <= 140; k++ {
			add("counts", 1, k)
		}
		add("uris", 1, powers(5, 17, -1, 0, 1)...)
		add("attributes", 1, powers(9, 12, -1, 0, 1)...)
		add("declarations", 1, powers(9, 12, -1, 0, 1)...)
		add("children", 1, powers(9, 14, -1, 0, 1)...)
		add("children", 1, 70000)
		add("values", 4, powers(9, 17, -1, 0, 1)...)
		add("lines", 1, powers(8, 17, -1, 0, 1)...)
		add("space", 4, powers(8, 17, -1, 0, 1)...)
		add("offsets", offsetVariants, 1<<20+1, 1<<22+1, 1<<23+5, 1<<24+3, 1<<25+3)
		add("tokens", 4, 1<<16+5, 1<<20+5)
		add("edges", 4, powers(8, 17, -4, -3, -2, -1, 0, 1, 2)...)
		return out
	}
	for k := 1; k <= 42; k++ {
		add("zeros", 1, k)
	}
	add("zeros", 1, 48, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257, 1000, 1024, 4097, 66000)
	add("nth", 1, 64, 128, 256, 512, 1024, 4096)
	add("nth", 4, 1<<15)
	add("nth", 1, 1<<16)
	for k := 1; k <= 66; k++ {
		add("counts", 1, k)
	}
	add("counts", 1, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025)
	add("uris", 1, powers(5, 12, 1)...)
	add("uris", 1, 66000)
	add("attributes", 1, 520, 1030, 2060)
	add("declarations", 1, 520, 1030, 2060)
	add("children", 1, 520, 1030, 4100, 20000)
	add("values", 4, powers(9, 12, 0, 1)...)
	add("values", 4, 8200, 1<<16+1)
	add("lines", 1, 300, 1030, 4100, 66000)
	add("space", 4, 300, 520, 1030, 4100, 66000)
	add("offsets", offsetVariants, 1<<20+1, 1<<24+3)
	add("offsets", 1, 1<<21+1, 1<<22+1, 1<<23+1, 1<<25+5)
	add("tokens", 4, 1<<20+5)
	add("edges", 1, powers(8, 12, -3, -2, -1, 0)...)
	add("edges", 1, 1<<13-1, 1<<14-1, 1<<15-1, 1<<16-2, 1<<16-1, 1<<16)
	return out
}
