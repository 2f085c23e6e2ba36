package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/refxml"
)

// Namespace names in other spellings: any of the characters written as a reference.

// spell writes one character: 0 plain, 1 decimal, 2 lower-case hexadecimal, 3 upper-case,
// with leading zeros.
func spell(r rune, how, zeros int) string {
	z := strings.Repeat("0", zeros)
	switch how {
	case 1:
		return fmt.Sprintf("&#%s%d;", z, r)
	case 2:
		return fmt.Sprintf("&#x%s%x;", z, r)
	case 3:
		return fmt.Sprintf("&#x%s%X;", z, r)
	case 4:
		switch r {
		case '&':
			return "&amp;"
		case '<':
			return "&lt;"
		case '>':
			return "&gt;"
		case '\'':
			return "&apos;"
		case '"':
			return "&quot;"
		}
	}
	if strings.ContainsRune("&<'\"", r) {
		return fmt.Sprintf("&#%d;", r)
	}
	return string(r)
}

// respell draws a spelling of a resolved string.
func respell(t *rapid.T, s string) string {
	var b strings.Builder
	density := pick(t, 1, 1, 3, 10)
	zeros := pick(t, 0, 0, 1, 2, 8)
	for _, r := range s {
		if chance(t, density, 10) {
			b.WriteString(spell(r, n(t, 1, 4), n(t, 0, zeros)))
		} else {
			b.WriteString(spell(r, 0, 0))
		}
	}
	return b.String()
}

// spellings of a string: each character in turn in each way, all of them in each way.
func spellings(s string, f func(string)) {
	rs := []rune(s)
	all := func(how, zeros int) {
		var b strings.Builder
		for _, r := range rs {
			b.WriteString(spell(r, how, zeros))
		}
		f(b.String())
	}
	for how := 0; how < 5; how++ {
		for z := 0; z <= 12; z++ {
			if (how == 0 || how == 4) && z > 0 {
				break
			}
			all(how, z)
			if z > 2 {
				continue
			}
			for i := range rs {
				f(plain(rs[:i]) + spell(rs[i], how, z) + plain(rs[i+1:]))
			}
		}
	}
	for _, z := range []int{16, 30, 64, 100, 300, 1000} {
		all(1, z)
		all(3, z)
	}
}

func plain(rs []rune) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(spell(r, 0, 0))
	}
	return b.String()
}

var spelled = []string{refxml.XMLURI, refxml.XMLNSURI,
	refxml.XMLURI + "/", refxml.XMLNSURI + "/", refxml.XMLURI[:len(refxml.XMLURI)-1], refxml.XMLNSURI[:len(refxml.XMLNSURI)-1],
	"http://www.w3.org/XML/1998/namespacf", "http://www.w3.org/2000/xmlnt/", "Http://www.w3.org/2000/xmlns/",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz", "\t\n !\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`{|}~",
	"\u00ab\u00bc\u00cd\u00de\u00ef\u0abc\U0001abcd\U000fedcb"}

// spellCases are declarations of spelled names; pairs also bring two spellings of one
// name together in attributes that collide.
func spellCases(pairs bool) []any {
	var out []any
	for _, s := range spelled {
		reserved := strings.HasPrefix(strings.ToLower(s), "http")
		spellings(s, func(v string) {
			docs := []string{"<r xmlns:p='" + v + "'/>"}
			if pairs {
				w := plain([]rune(s))
				near := plain([]rune(s + "x"))
				docs = []string{"<r xmlns:p='" + v + "' xmlns:q='" + w + "' p:a='' q:a=''/>", "<r xmlns:p='" + near + "' xmlns:q='" + v + "' p:a='' q:a=''/>"}
			} else if reserved {
				docs = append(docs, "<r xmlns=\""+v+"\"/>", "<r xmlns:xml='"+v+"' xml:a=''/>")
			}
			for _, d := range docs {
				out = append(out, &DocCase{Doc: Blob(d)})
			}
		})
	}
	return out
}

// with adds cases to others.
func with(f func(string) []any, more ...any) func(string) []any {
	return func(tier string) []any { return append(f(tier), more...) }
}
