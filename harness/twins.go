package main

import (
	"regexp"
	"strings"
)

var emptyRe = regexp.MustCompile(`<([^\s/>!?<]+)([^<>]*)/>`)

// Hash twins: different names of the same length that have the same value under a common
// hash, or differ only where a careless comparison does not look. Whatever the library
// does to compare names fast must tell them apart.

var hashTwins = [][2]string{
	{"Aa", "BB"},                       // ×31
	{"ab", "ba"},                       // sum, xor
	{"axb", "ayb"}, {"axbxc", "axcxb"}, // ends, anagrams
	{"plumless", "buckeroo"},                             // CRC-32
	{"abcdefghxijklmnop", "abcdefghyijklmnop"},           // middle
	{"abcdefghijklmnopx", "abcdefghijklmnopy"},           // after two words
	{"xabcdefgh", "yabcdefgh"},                           // last word
	{"ab", "Ab"}, {"ab", "aB"}, {"\xc3\xa9", "\xc3\x89"}, // case
	{"k", "\u212a"}, {"s", "\u017f"}, {"\u00e5", "\u212b"}, // case folding
	{"e\u0301x", "\u00e9x"},                         // normal forms
	{"A", "\U00010041"}, {"\u0100a", "\U00010100a"}, // low 16 bits
	{"\u00e9", "\u01e9"}, {"a", "\u0161"}, // low 8 bits
	{"a1", "a\u0661"}, {"a-b", "a_b"}, {"a.b", "a-b"}, {"a", "aa"}, {"a", "a."}, {"a0", "a00"}, {"a1", "a01"},
	{"HiHfsA9", "aOjo-zl"}, {"d3DVvfJ", "d2d98ei"}, // ×31, seeded ×31
	{"IkRNOXr", "ghidThu"}, {"kkahBpM", "luoPz39"}, // ×33 with + and ^
	{"w0C7lC3", "T0hfCh."}, {"sPtQ3ej", "bLZ2K47"}, // ×65599
	{"P2hP0by", "aVTTudY"}, {"bRwQR5T", "DNVpjPE"}, {"qHCv3sl", "qwQf8v7"}, // ×131, ×37, ×257
	{"gElLaAt", "TwnPHI4"}, {"zTDM5yd", "gDXRwuZ"}, // Rabin-Karp, ×31 ^
	{"wtddVph", "q82ShAH"}, {"UtSJ1-.", "IddiBhP"}, // FNV-1, FNV-1a, 32 bits
	{"CSnX9oV", "fzmYNcO"}, {"yv3xVQ5", "hZGpvvQ"}, {"WXDupfm", "nqp3MxI"}, {"TkbGkAr", "gAgUpyC"}, {"RHHkEsu", "ByQs.T4"}, // 64 bits, cut to 32
	{"sy8Yxny", "M3i.vaA"}, {"Rj7hdAc", "uch-Fuw"}, {"Jvvv.6L", "Jvvfh4f"}, {"TNpM3zR", "Wb3lf5k"}, // CRC, Adler
	{"qT139Sm", "XwSqySg"}, {"xikWdIB", "BvkWgxZ"}, {"MF5IGy1", "rhnlof_"}, {"jv1jyKH", "N2qkgj8"}, // rotations, one-at-a-time, PJW
}

// In these, A and B are the twins.
var twinTemplates = []string{
	"<x $A='1' $B='2'/>", "<x a='' $A='1' b='' $B='2'>t</x>", "<x xmlns:p='u' xmlns:q='v' p:$A='' p:$B='' q:$A='' $A=''/>",
	"<x xmlns:$A='u' xmlns:$B='v' $A:c='' $B:c=''/>", "<x xmlns:p='$A' xmlns:q='$B' p:c='' q:c=''/>", "<$A><$B/></$A>", "<$A><$B></$B><$A>t</$A></$A>",
	"<x xmlns='$A'><y xmlns='$B'/></x>", "<?$A v?><?$B v?>", "<x xmlns:$A='$A'><$A:y xmlns:$B='$B'><$B:z/><$A:z $A:c='' $B:c=''/></$A:y></x>",
	"<x xmlns:p='$A'><y xmlns:q='$B' p:c='' q:c=''/></x>", "<x xmlns:p='$A$A' xmlns:q='$B$A' p:c='' q:c=''/>", "<x xmlns:$A='u'><x xmlns:$B='v' $A:$A='' $B:$B=''/></x>",
	"<x $A='$A' $B='$A'/>$A$B<![CDATA[$A]]><!--$B-->",
	// not right
	"<$A></$B>", "<$A>t<x/></$B>", "<p:$A xmlns:p='u'></p:$B>", "<$A:p xmlns:$A='u' xmlns:$B='u'></$B:p>", "<x xmlns:$A='u'><$B:y/></x>", "<x xmlns:$A='u' $B:c=''/>",
	"<x $A='' $B='' $A=''/>", "<x $B='' $A='' $A=''/>", "<x xmlns:p='$A' xmlns:q='$B' xmlns:s='$A' p:c='' q:c='' s:c=''/>", "<x xmlns:$A='u' xmlns:$B='v' xmlns:$A='w'/>",
	"<x xmlns:$A='u' xmlns:$B='u' $A:c='' $B:c=''/>", "<x xmlns:$A='u'><$A:y/></x><$B:y/>", "<x xmlns:p='$A' xmlns:q='$B' p:c='' q:c='' p:c=''/>",
	"<x xmlns:p='$A'><y xmlns:q='$B'><y xmlns:s='$A' p:c='' q:c='' s:c=''/></y></x>",
}

// twinOthers are pairs whose parts add up to the same.
var twinOthers = []string{
	"<x xmlns:a='u' xmlns:ab='v' a:bc='' ab:c=''/>", "<x xmlns:a='uv' xmlns:b='u' a:c='' b:vc=''/>", "<x xmlns:a='u' xmlns:b='uc' a:cc='' b:c=''/>",
	"<x xmlns:a='u:' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a='u}' xmlns:b='{u' a:c='' b:c=''/>", "<x xmlns:a='u ' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a=' u' xmlns:b='u' a:c='' b:c=''/>",
	"<x xmlns:a='u/' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a='U' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a='%75' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a='u#' xmlns:b='u' a:c='' b:c=''/>",
	"<x xmlns:a='u' xmlns:b='u' a:bc='' b:c=''/>", "<x xmlns:ab='u' xmlns:b='u' ab:c='' b:ac=''/>", "<x xmlns:a='u' a:c='' ac='' ca=''/>", "<x xmlns:a='u' a:a='' a=''/>",
	"<x xmlns:c='u' xmlns:d='uu' c:ud='' d:d=''/>", "<ab:c xmlns:ab='u' xmlns:a='v'><a:bc/></ab:c>", "<ab:c xmlns:ab='u' xmlns:a='v'></a:bc>", "<x xmlns:a='u&amp;' xmlns:b='u&#38;' a:c='' b:c=''/>",
	"<x xmlns:a='u&amp;amp;' xmlns:b='u&amp;' a:c='' b:c=''/>", "<x xmlns:a='&#117;' xmlns:b='u' a:c='' b:d=''/>", "<x xmlns:a='&#117;' xmlns:b='u' a:c='' b:c=''/>", "<x xmlns:a='u&#10;' xmlns:b='u\n' a:c='' b:c=''/>",
	"<x xmlns='u' xmlns:a='u' a:c='' c=''/>", "<x xmlns:a='xml' xml:c='' a:c=''/>", "<x xmlns:a='a' a:a='' a=''/>", "<x xmlns:a='b' xmlns:b='a' a:b='' b:a='' a:a='' b:b=''/>",
	"<x xmlns:a='b' xmlns:b='a' a:b='' b:a='' a:a='' b:b='' a:b=''/>", "<x xmlns:a='u'><y xmlns:a='v' xmlns:b='u' a:c='' b:c=''/></x>", "<x xmlns:a='u'><y xmlns:a='v' xmlns:b='v' a:c='' b:c=''/></x>",
	"<x xmlns:a='u'><y xmlns:a='v'/><z xmlns:b='u' a:c='' b:c=''/></x>", "<x xmlns:a='u'><y xmlns:a='v'/><z xmlns:b='v' a:c='' b:c=''/></x>", "<x xmlns:a='u' xmlns:b='v'><y xmlns:a='v' a:c='' b:c=''/></x>",
	"<x xmlns:a='u' xmlns:b='v'><y xmlns:a='v' a:c=''><z xmlns:b='u' a:c='' b:c=''/></y></x>", "<x xmlns:a='u' xmlns:b='v'><y xmlns:a='v' xmlns:b='u' a:c='' b:c=''/><z a:c='' b:c=''/></x>",
}

func twinPieces() []string {
	out := append([]string{}, twinOthers...)
	for i, p := range hashTwins {
		for j, t := range twinTemplates {
			a, b := p[0], p[1]
			if (i+j)%2 == 0 {
				a, b = b, a
			}
			out = append(out, strings.NewReplacer("$A", a, "$B", b).Replace(t))
		}
	}
	return out
}

// respaced are the pieces with other white space, at every place that allows it (and some
// that do not), and with the other quotes.
func respaced(pieces []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range pieces {
		seen[p] = true
	}
	for _, p := range pieces {
		for _, w := range []string{"\n", "\r\n", "\t", "\r", "  ", " \r\n\t ", "\n\n"} {
			for _, v := range []string{
				strings.ReplaceAll(p, " ", w), emptyRe.ReplaceAllString(p, "<$1$2"+w+"></$1"+w+">"), strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(p, "/>", "\x00"), ">", w+">"), "\x00", w+"/>"),
				strings.ReplaceAll(p, "=", w+"="), strings.ReplaceAll(p, "=", "="+w), strings.ReplaceAll(strings.ReplaceAll(p, "=", w+"="+w), " ", " "+w), strings.ReplaceAll(strings.ReplaceAll(p, "=", w+"="+w), "'", "\""),
			} {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
		if v := strings.ReplaceAll(p, "'", "\""); !seen[v] {
			out = append(out, v)
		}
	}
	return out
}
