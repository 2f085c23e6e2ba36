package main

// Edit sweeps: every single edit out of a list, at every byte of a set of documents that
// together use every construct. Where the enumeration of token sequences reaches short
// documents, the sweep reaches every place of long ones.

var sweepDocs = []string{
	// 0-9: content and markup
	"<a><b>t</b></a>",
	"<aa bb='1' cc=\"2\">x<dd/>y</aa>",
	"<a>\n<b c='d'\n e='f'/>\n</a>\n",
	"<a>x&lt;y&gt;z&amp;&apos;&quot;</a>",
	"<a>&#65;&#x41;&#x10fFfF;&#0233;</a>",
	"<a b='&lt;&#65;&#x4e2D;&amp;' c=\"&quot;'\"/>",
	"<a><!-- c -- --></a>", // ill-formed as it stands; edits repair it
	"<a><!-- c - c --><!---->t<!--x--></a>",
	"<a><![CDATA[ ]] ]> <x> & ]]]><![CDATA[]]>t</a>",
	"<a><?p v v?><?q?><?r ??><?s  x?></a>",
	// 10-19: around the root
	"<!--c--><a/><!--d-->",
	"<?p v?><a/><?q w?>",
	" \n<a></a>\n ",
	"<?p?>\n<!--x-->\n<a>t</a>\n<!--y-->\n<?q?>\n",
	"<?xml version='1.0'?><a/>",
	"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<a>\xc3\xa9</a>",
	"<?xml version = '1.1' encoding = 'us-ascii' standalone = 'no' ?><a b='c'>d</a>",
	"\xef\xbb\xbf<a>\xe6\x97\xa5</a>",
	"\xef\xbb\xbf<?xml version='1.0' encoding='utf-8'?><a/>",
	"<?xml version='1.0' encoding='ASCII'?><a b='c'><!--d--><?e f?><![CDATA[g]]></a>",
	// 20-29: document types
	"<!DOCTYPE a><a/>",
	"<!DOCTYPE a SYSTEM 'x>y'>\n<a/>",
	"<!DOCTYPE a PUBLIC \"p\" 's' [<!ELEMENT a (b|c)*><!-- ' > --><?p ' >?>]><a/>",
	"<!DOCTYPE a [<!ENTITY e \"<v>\"><!ATTLIST a b CDATA #IMPLIED>] ><a>t</a>",
	"<!--x--><!DOCTYPE a [ ]><!--y--><a/>",
	"<?xml version='1.0'?><!DOCTYPE a><a>&lt;</a>",
	// names and characters
	"<\xc3\xa9-.1 \xc3\xa9:\xc3\xa9='\xf0\x90\x80\x80'>\xe6\x97\xa5\xf4\x8f\xbf\xbf</\xc3\xa9-.1>",
	"<a1.b-c_d>\xed\x9f\xbf\xee\x80\x80\xef\xbf\xbd</a1.b-c_d>",
	"<\xe5\x90\x8d\xe5\x89\x8d>\xc2\x80]]\xc2\xa0</\xe5\x90\x8d\xe5\x89\x8d>",
	"<a b='\t\n\r\n' c='\xc3\xa9'>\r\nx\ry</a>",
	// 30-39: trees
	"<a><b><c><d><e/></d></c></b></a>",
	"<r><a/><b><c/><d>x</d></b>t<e><f/></e></r>",
	"<a>x<b>y</b>z<c/>w<d></d></a>",
	"<a> <b> </b> </a>",
	"<a>]<b/>]]<c/>&lt;]<d/>></a>",
	"<a><b/><!--c--><?d?><![CDATA[e]]>f</a>",
	"<aaa><aa></aa><aaaa/></aaa>",
	"<a ><b  /><c\n></c\t></a >",
	"<a><a><a/></a></a>",
	"<a b='1' c='2' d='3' e='4'/>",
	"<?xmlp v?><a><?xml- v?><?XMLa?><?xm v?><?xmlb/?></a><?xMl-c?>",
	// 41-: namespaces
	"<a xmlns='u'><b/></a>",
	"<p:a xmlns:p='u'><p:b p:c='1'/></p:a>",
	"<a xmlns:p='u' xmlns:q='v' p:x='1' q:x='2' x='3'/>",
	"<a xmlns:p='u'><b xmlns:p='v' xmlns:q='u' p:x='1' q:x='2'/><p:c/></a>",
	"<a xml:lang='en'><xml:b xml:space='x'/></a>",
	"<a xmlns:xml='http://www.w3.org/XML/1998/namespace' xml:b=''/>",
	"<a xmlns:p='http://www.w3.org/XML/1998/namespac&#101;x'><p:b/></a>",
	"<a xmlns:p='http://www.w3.org/2000/xmln&#x73;' p:b='1'/>",
	"<p:a xmlns:p='u&amp;v' xmlns:q='u&#38;' p:b='' q:b=''></p:a>",
	"<a xmlnsx='1' xmln='2' xml='3' xmlp:b='4' xmlns:xmlp='u'/>",
	"<r xmlns:p='u'>\n<a\n xmlns:q='v'\n q:b='1'\n p:b='2'>\n<q:c/>\n</a>\n<p:d/>\n</r>",
	"<a xmlns='' xmlns:b='c'><b:b xmlns=\"d\" b:b='b'><c xmlns=''/></b:b></a>",
	"<xmlns xmlns:xmlnsp='u'><xmlnsp:xml xmlnsp:xmlns='1'/><xml/></xmlns>",
	"<a><b xmlns:p='u'><p:c/></b><b xmlns:p='v'><p:c/></b></a>",
	// longer
	"<?xml version='1.0'?>\n<!DOCTYPE r>\n<!--c-->\n<r xmlns:p='u' a='1'>\n  <p:e b='&amp;'>t&#9;t</p:e>\n  <?p v?>\n  <![CDATA[<x>]]>\n  <f/>\n</r>\n<!--d-->\n",
	"<r><i n='1'><j/>a</i><i n='2'><j><k/></j>b</i><i n='3'>c<j/></i></r>",
	"<!DOCTYPE a [<!ENTITY x 'A&#65;&amp;'><?p &#x41;&lt;?><!--&gt;&#66;-->]><?p &#65;&lt;?><!--&apos;--><a b='&#65;'><!--&#65;&amp;--><![CDATA[&#65;&gt;]]><?q &#66;?>&#67;</a>",
}

// sweepEdits are put in, and also put in place of one byte.
var sweepEdits = []string{
	"<", ">", "/", "&", ";", "#", "'", "\"", "=", "!", "-", "--", "?", "[", "]", "]]>", ":", " ", "\n", "\r", "\r\n", "\t",
	"a", "b", "p", "x", "X", "0", "1", "9", "g", "G", "_", ".", "xmlns", "xml", "q:", "%",
	"\x00", "\x7f", "\x80", "\xbf", "\xc0", "\xc1\xbf", "\xc2", "\xc3\xa9", "\xcc\x80", "\xe0\x9f\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xb7\x90", "\xef\xbb\xbf",
	"\xef\xbf\xbd", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf3\xb0\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8", "\xff",
	"&amp;", "&lt;", "&#9;", "&#x9;", "&#xA;", "&#1;", "&#0;", "&#x0;", "&#xD800;", "&#xFFFF;", "&#x110000;", "&#4294967361;", "&#x100000041;", "&#x4g;", "&#4a;", "&#;", "&#x;", "&e;", "&amp", "&#6", "&#x6",
	"<b>", "</b>", "</a>", "<a>", "<b/>", "<b c='1'/>", "<!--", "-->", "<!---->", "<!--z-->", "<?", "?>", "<?z?>", "<?z z?>", "<?xml?>", "<?xml version='1.0'?>", "<?XML z?>", "<![CDATA[", "<![CDATA[z]]>", "<!DOCTYPE a>", "<!z>",
	" z='1'", " z=''", " a='1'", " p:z='1'", " p:b='1'", " b='", " z", " xmlns:z='u'", " xmlns:p='u'", " xmlns:q='u'", " xmlns='u'", " xmlns=''", " xmlns:p=''", " xmlns:xmlns='u'", " xmlns:xml='u'",
	" xmlns:z='http://www.w3.org/2000/xmlns/'", " xmlns='http://www.w3.org/XML/1998/namespace'", "zz", "zzz",
	"\xc2\x85", "\xe2\x80\xa8", "\xc2\xa0", "\xe3\x80\x80", "\xe2\x80\x8b", "\v", "\f",
}

// sweepNs is the first document about namespaces.
const sweepNs = 41

// Sweep is a part of the sweep: the edits of document Doc at the places [Lo,Hi). With
// Pair, each is followed by a second one, Pair places later.
type Sweep struct {
	Doc  int `json:"doc"`
	Lo   int `json:"lo"`
	Hi   int `json:"hi"`
	Pair int `json:"pair,omitempty"`
}

// deletions by length, besides sweepEdits
const sweepCuts = 4

func sweepOne(d []byte, at, k int) []byte {
	if k < sweepCuts {
		if at+k+1 > len(d) {
			return nil
		}
		return append(append([]byte(nil), d[:at]...), d[at+k+1:]...)
	}
	k -= sweepCuts
	e := sweepEdits[k/2]
	skip := k % 2
	if at+skip > len(d) {
		return nil
	}
	out := make([]byte, 0, len(d)+len(e))
	return append(append(append(out, d[:at]...), e...), d[at+skip:]...)
}

func sweepCount() int { return sweepCuts + 2*len(sweepEdits) }

func (s *Sweep) each(f func(doc []byte) error) error {
	if s.Doc < 0 || s.Doc >= len(sweepDocs) {
		return nil
	}
	base := []byte(sweepDocs[s.Doc])
	for at := s.Lo; at < s.Hi && at <= len(base); at++ {
		for k := 0; k < sweepCount(); k++ {
			d := sweepOne(base, at, k)
			if d == nil {
				continue
			}
			if s.Pair == 0 {
				if err := f(d); err != nil {
					return err
				}
				continue
			}
			// the second edit stands behind the first one, counted from the end
			at2 := len(d) - (len(base) - at) + s.Pair
			if at2 > len(d) || at2 < 0 {
				continue
			}
			for k2 := (at + k) % 3; k2 < sweepCount(); k2 += 3 {
				d2 := sweepOne(d, at2, k2)
				if d2 == nil {
					continue
				}
				if err := f(d2); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// sweepParts lists the sweep.
func sweepParts(tier string, from, to int) []*Sweep {
	var out []*Sweep
	for d := from; d < len(sweepDocs) && d < to; d++ {
		const chunk = 16
		for lo := 0; lo <= len(sweepDocs[d]); lo += chunk {
			out = append(out, &Sweep{Doc: d, Lo: lo, Hi: lo + chunk})
			if tier == "thorough" {
				for _, g := range []int{1, 2, 3, 5, 9} {
					for l := lo; l < lo+chunk && l <= len(sweepDocs[d]); l++ {
						out = append(out, &Sweep{Doc: d, Lo: l, Hi: l + 1, Pair: g})
					}
				}
			}
		}
	}
	return out
}
