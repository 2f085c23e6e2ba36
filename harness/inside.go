package main

import "fmt"

// Inside: one thing in the middle of a long token — so many units in, so many before its
// end. What is skipped, copied or compared in blocks goes wrong there first.

type insideCtx struct {
	name, pre, post string
	fills           []string
}

var insideCtxs = []insideCtx{
	{"text", "<a>", "</a>", []string{"x", "é", "日", "\n", " ", "&lt;", "x\r\n", "𐀀"}},
	{"text behind a child", "<a><b/>", "<c/></a>", []string{"x", " ", "é"}},
	{"comment", "<a><!--", "--></a>", []string{"x", "é", "- ", "\n"}},
	{"comment in front", "<!--", "--><a/>", []string{"x", "日"}},
	{"comment behind", "<a/><!--", "-->", []string{"x", "\n"}},
	{"CDATA", "<a><![CDATA[", "]]></a>", []string{"x", "é", "]", "<&"}},
	{"PI value", "<a><?p ", "?></a>", []string{"x", "é", "? "}},
	{"PI value in front", "<?p ", "?><a/>", []string{"x", "日"}},
	{"PI value behind", "<a/><?p ", "?>", []string{"x", "?"}},
	{"value", "<a b='", "'/>", []string{"x", "é", " ", "&#65;", "\n", "日", "\""}},
	{"second value", "<a b='' c=\"", "\">t</a>", []string{"x", "'", ">"}},
	{"prefixed value", "<a xmlns:b='u' b:c='", "'/>", []string{"x", "&amp;"}},
	{"default declaration", "<a xmlns='", "'><b/></a>", []string{"x", "é", "&#x20;"}},
	{"declaration", "<a xmlns:p='", "'><p:b/></a>", []string{"x", "日", "&amp;"}},
	{"attribute name", "<a b", "=''/>", []string{"x", "é", "."}},
	{"prefixed attribute name", "<a xmlns:p='u' p:b", "='' b='' />", []string{"x", "日"}},
	{"prefix in a declaration", "<a xmlns:p", "='u'/>", []string{"x", "é"}},
	{"element name", "<a", "/>", []string{"x", "é", "-"}},
	{"element name inside", "<a><b", "/>t</a>", []string{"x", "日"}},
	{"PI target", "<a><?p", "?></a>", []string{"x", "é"}},
	{"PI target in front", "<?p", " v?><a/>", []string{"x", "1"}},
	{"PI target behind", "<a/><?p", " v?>", []string{"x"}},
	{"DOCTYPE comment", "<!DOCTYPE a [<!--", "-->]><a/>", []string{"x", "é", "> "}},
	{"DOCTYPE literal", "<!DOCTYPE a SYSTEM '", "'><a/>", []string{"x", ">", "["}},
	{"DOCTYPE value", "<!DOCTYPE a [<!ENTITY e '", "'>]><a/>", []string{"x", ">", "]", "\""}},
	{"DOCTYPE space", "<!DOCTYPE a", "[]><a/>", []string{" ", "\n"}},
	{"space in a tag", "<a", "b=''/>", []string{" ", "\n", "\r\n"}},
	{"space behind an attribute", "<a b=''", "c=''/>", []string{" ", "\t\n"}},
	{"space at the end of a tag", "<a b=''", ">t</a>", []string{" ", "\r"}},
	{"space in an empty tag", "<a", "/>", []string{" ", "\n"}},
	{"space around =", "<a b", "= ''/>", []string{" ", "\n"}},
	{"space behind =", "<a b=", "''/>", []string{" ", "\n"}},
	{"space in an end tag", "<a><b></b", "></a>", []string{" ", "\n"}},
	{"space in the root's end tag", "<a></a", ">", []string{" ", "\r\n"}},
	{"space in the declaration", "<?xml version='1.0'", "standalone='no'?><a/>", []string{" ", "\n"}},
	{"space at the end of the declaration", "<?xml version='1.0' encoding='utf-8'", "?><a/>", []string{" "}},
	{"space in front", "<!--c-->", "<a/>", []string{" ", "\n"}},
	{"space behind", "<a/>", "", []string{" ", "\n", "\r\n"}},
	{"space behind a comment behind", "<a/><!--c-->", "<?p?>", []string{" "}},
	{"space before a PI's value", "<a><?p", "v?></a>", []string{" ", "\n"}},
	{"space between elements", "<a><b/>", "<b/></a>", []string{" ", "\r"}},
	{"space in ASCII", "<?xml version='1.0' encoding='ascii'?><a>", "</a>", []string{" ", "x"}},
	{"value in ASCII", "<?xml version='1.0' encoding='us-ascii'?><a b='", "'/>", []string{"x"}},
	{"comment in ASCII", "<?xml version='1.0' encoding='us-ascii'?><a><!--", "--></a>", []string{"x", "\n"}},
	{"namespace in ASCII", "<?xml version='1.0' encoding='us-ascii'?><a xmlns:p='", "' xmlns:q='u' p:x='' q:x=''/>", []string{"x", "&#65;"}},
	{"name in ASCII", "<?xml version='1.0' encoding='ASCII'?><a b", "=''/>", []string{"x"}},
	{"element name in ASCII", "<?xml version='1.0' encoding='ascii'?><a><b", "/>t</a>", []string{"x"}},
	{"CDATA in ASCII", "<?xml version='1.0' encoding='ascii'?><a><![CDATA[", "]]></a>", []string{"x", "]"}},
	{"PI value in ASCII", "<?xml version='1.0' encoding='ascii'?><?p ", "?><a/>", []string{"x"}},
	{"DOCTYPE in ASCII", "<?xml version='1.0' encoding='ascii'?><!DOCTYPE a [<!ENTITY e '", "'>]><a/>", []string{"x"}},
	{"comment behind in ASCII", "<?xml version='1.0' encoding='ascii'?><a/><!--", "-->", []string{"x"}},
	{"two namespaces", "<a xmlns:p='", "' xmlns:q='u' p:x='' q:x=''/>", []string{"x", "é", "&#65;"}},
	{"two namespaces, two elements", "<a xmlns:p='u'><b xmlns:q='", "' p:x='' q:x=''/></a>", []string{"x", "日"}},
}

var insideBits = []string{
	"\x00", "\x01", "\x0b", "\x1f", "\x7f", "\x80", "\xbf", "\xff", "\xfe", "\xc3", "\xc3\x28", "\xe6\x97", "\xe6\x97x", "\xf0\x90\x80", "\xf0\x90\x80x", "\xed\xa0\x80", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xf4\x90\x80\x80", "\xc0\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xef\xbb\xbf",
	"", "<", "&", "&amp;", "&amp", "&#0;", "&#65;", "&#x1F600;", "&x;", "&#xD800;", ">", "]]>", "]]", "]", "--", "-->", "->", "-", "?>", "?", "'", "\"", "=", "/", "/>", "<b/>", "</a>", "</b>", "<!--", "<!--x-->", "<![CDATA[", "<![CDATA[]]>", "<?q?>", "]]><![CDATA[", "'b='", "' b='", "\" b=\"",
	"\r", "\n", "\t", " ", "\r\n", "é", "日", "𐀀", "\u0085", "\u2028", "\u00a0", ":", "::", "$", "\u00d7", "\u00b7", "\u0300", "1", ".", "x", " x", "x ", "%", ";", "<!", "<?", "</",
}

func insideSurs() []surrounding {
	var out []surrounding
	before := []int{1, 2, 3, 4, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2046, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537}
	after := []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 129, 300, 1100, 5000}
	for _, c := range insideCtxs {
		for fi, f := range c.fills {
			for i, k := range before {
				n := 4
				if k > 600 {
					n = 2
				}
				for j := 0; j < n; j++ {
					a := after[(i*7+j*5+fi*3)%len(after)]
					if k > 4000 && j == 0 {
						a %= 100
					}
					out = append(out, surrounding{fmt.Sprintf("inside: %s", c.name), c.pre + rep(f, k), rep(f, a) + c.post})
				}
			}
		}
	}
	return out
}
