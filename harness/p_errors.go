package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C24 errors

// ErrLayer is one error of a chain, innermost first.
type ErrLayer struct {
	Kind string `json:"kind"` // a library kind, or plain, wrap, join
	Msg  string `json:"msg"`
	Arg  string `json:"arg,omitempty"` // parameter or position
}

// ErrCase is a chain of errors.
type ErrCase struct {
	Chain []ErrLayer `json:"chain"`
}

// kinds that wrap a cause, and those that do not
var wrapKinds = []string{"argument", "internal", "parse", "navigation"}
var leafKinds = []string{"encoding", "decoding", "entity", "eof", "modify"}
var allKinds = append(append([]string{}, wrapKinds...), leafKinds...)

// foundKind finds an error of a kind in a chain.
func foundKind(err error, kind string) (error, bool) {
	switch kind {
	case "argument":
		var e *erroring.InvalidArgumentError
		ok := errors.As(err, &e)
		return e, ok
	case "internal":
		var e *erroring.InternalError
		ok := errors.As(err, &e)
		return e, ok
	case "parse":
		var e *erroring.ParseError
		ok := errors.As(err, &e)
		return e, ok
	case "navigation":
		var e *erroring.NavigationError
		ok := errors.As(err, &e)
		return e, ok
	case "encoding":
		var e *erroring.EncodingError
		ok := errors.As(err, &e)
		return e, ok
	case "decoding":
		var e *erroring.DecodingError
		ok := errors.As(err, &e)
		return e, ok
	case "entity":
		var e *erroring.EntityError
		ok := errors.As(err, &e)
		return e, ok
	case "eof":
		var e *erroring.EOFError
		ok := errors.As(err, &e)
		return e, ok
	default:
		var e *erroring.ModifyError
		ok := errors.As(err, &e)
		return e, ok
	}
}

func makeErr(l ErrLayer, cause error) error {
	switch l.Kind {
	case "argument":
		return erroring.NewInvalidArgumentError(l.Arg, l.Msg, cause)
	case "internal":
		return erroring.NewInternalError(l.Msg, cause)
	case "parse":
		return erroring.NewParseError(l.Msg, l.Arg, cause)
	case "navigation":
		return erroring.NewNavigationError(l.Msg, cause)
	case "encoding":
		return erroring.NewEncodingError(l.Msg)
	case "decoding":
		return erroring.NewDecodingError(l.Msg)
	case "entity":
		return erroring.NewEntityError(l.Msg)
	case "eof":
		return erroring.NewEOFError(l.Msg)
	case "modify":
		return erroring.NewModifyError(l.Msg)
	case "wrap":
		return fmt.Errorf("%s: %w", l.Msg, cause)
	default:
		return errors.New(l.Msg)
	}
}

// fields checks what an error of a kind keeps of its arguments.
func fields(err error, l ErrLayer) error {
	bad := func(f string, got, want string) error {
		if got != want {
			return fmt.Errorf("%s is %q, want %q", f, got, want)
		}
		return nil
	}
	// one by one: two of the kinds may be the same type, which is a violation to find, not
	// a reason not to build
	if e, ok := err.(*erroring.InvalidArgumentError); ok {
		if x := bad("Parameter", e.Parameter, l.Arg); x != nil {
			return x
		}
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.ParseError); ok {
		if x := bad("LineNumber", e.LineNumber, l.Arg); x != nil {
			return x
		}
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.NavigationError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.EncodingError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.DecodingError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.EntityError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.EOFError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	if e, ok := err.(*erroring.ModifyError); ok {
		return bad("Msg", e.Msg, l.Msg)
	}
	return nil
}

func isLeaf(kind string) bool {
	for _, k := range leafKinds {
		if k == kind {
			return true
		}
	}
	return kind == "plain"
}

func genErrCase(t *rapid.T) any {
	ec := &ErrCase{}
	word := func() string {
		if chance(t, 1, 8) {
			return rapid.String().Draw(t, "s")
		}
		if chance(t, 1, 12) {
			return fillTo(n(t, 1, pick(t, 40, 300, 5000)), pick(t, "x", "é", "%", "Line number: 1 Offset: 2 "))
		}
		return pick(t, "", "boom", "%s", "%w %d", "cannot be nil", "é日", "a\nb", "100%", "x: y", "\x00", "Line number: 3 Offset: 4", "premature EOF reached: x")
	}
	for k := n(t, 1, 6); k > 0; k-- {
		l := ErrLayer{Msg: word(), Arg: word()}
		switch {
		case len(ec.Chain) == 0:
			l.Kind = pick(t, append([]string{"plain", "nil"}, allKinds...)...)
			if l.Kind == "nil" { // the cause is absent
				l.Kind = wrapKinds[n(t, 0, 3)]
			}
		default:
			l.Kind = pick(t, append([]string{"wrap"}, wrapKinds...)...)
		}
		ec.Chain = append(ec.Chain, l)
	}
	return ec
}

func checkErrors(c *Ctx, v any) error {
	ec := v.(*ErrCase)
	var errs []error
	var cause error
	if len(ec.Chain) >= 2 {
		c.NonTrivial()
	}
	for k, l := range ec.Chain {
		if k > 0 && isLeaf(l.Kind) {
			return nil // not a chain
		}
		err := makeErr(l, cause)
		errs = append(errs, err)
		c.Label("kind: " + l.Kind)
		c.Evals(1)
		at := func(f string, a ...any) error {
			return fmt.Errorf("layer %d (%+v): %s", k, l, fmt.Sprintf(f, a...))
		}
		if !strings.Contains(err.Error(), l.Msg) {
			return at("text %q lacks the message", err.Error())
		}
		if l.Kind == "argument" && !strings.Contains(err.Error(), l.Arg) {
			return at("text %q lacks the parameter", err.Error())
		}
		if err.Error() == "" && l.Kind != "plain" {
			return at("empty text")
		}
		if e := fields(err, l); e != nil {
			return at("%v", e)
		}
		if u := errors.Unwrap(err); u != cause {
			return at("unwraps to %v, want %v", u, cause)
		}
		if l.Kind != "plain" {
			// seen through any further layers it is the same error of the same kind, and of no other
			for _, kind := range allKinds {
				got, ok := foundKind(err, kind)
				want := -1 // the outermost layer of that kind
				for j := k; j >= 0; j-- {
					if ec.Chain[j].Kind == kind {
						want = j
						break
					}
				}
				if ok != (want >= 0) {
					return at("recognised as %s: %v, want %v", kind, ok, want >= 0)
				}
				if ok && got != errs[want] {
					return at("the %s error found in it is not the one put in", kind)
				}
			}
		}
		for j := 0; j <= k; j++ {
			if !errors.Is(err, errs[j]) {
				return at("does not lead to its cause, layer %d", j)
			}
		}
		if errors.Is(err, errors.New(l.Msg)) {
			return at("leads to an unrelated error")
		}
		cause = err
	}
	// earlier errors are as they were
	for k, l := range ec.Chain {
		if e := fields(errs[k], l); e != nil {
			return fmt.Errorf("at the end, layer %d (%+v): %v", k, l, e)
		}
		if !strings.Contains(errs[k].Error(), l.Msg) {
			return fmt.Errorf("at the end, layer %d (%+v): text %q lacks the message", k, l, errs[k].Error())
		}
	}
	return nil
}

// ---------------------------------------------------------------- C25 modifier and pilot

// NavOpt is one option of a modifier or pilot.
type NavOpt struct {
	Op   string `json:"op"` // nav, nil, caching
	Enc  int    `json:"enc,omitempty"`
	Size int    `json:"size,omitempty"`
	Doc  Blob   `json:"doc,omitempty"` // nav: a real one over this document
	On   bool   `json:"on,omitempty"`
}

// ModCase builds one modifier or pilot.
type ModCase struct {
	Pilot bool     `json:"pilot,omitempty"`
	Opts  []NavOpt `json:"opts"`
}

// fakeNav has a drawn encoding and size; nothing else is to be called.
type fakeNav struct {
	navigation.Nav
	enc  common.FormatEncoding
	size int
}

func (f *fakeNav) GetEncoding() common.FormatEncoding { return f.enc }
func (f *fakeNav) GetVtdBufferSize() int              { return f.size }

func genModCase(t *rapid.T) any {
	mc := &ModCase{Pilot: chance(t, 1, 2)}
	for k := n(t, 1, 4); k > 0; k-- {
		switch weighted(t, 6, 2, 2) {
		case 0:
			o := NavOpt{Op: "nav", Enc: pick(t, 0, 2, 0, 2, n(t, 0, 28), n(t, -2, 40))}
			o.Size = pick(t, 0, 1, n(t, 0, 300), pick(t, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4096, 8192, 16384), n(t, 0, 70000), -1)
			if chance(t, 1, 4) {
				o.Doc = genDoc(t, DocCfg{NS: true, Budget: 4})
			}
			mc.Opts = append(mc.Opts, o)
		case 1:
			mc.Opts = append(mc.Opts, NavOpt{Op: "nil"})
		default:
			mc.Opts = append(mc.Opts, NavOpt{Op: "caching", On: chance(t, 1, 2)})
		}
	}
	return mc
}

func typed(err error) bool {
	for _, k := range allKinds {
		if _, ok := foundKind(err, k); ok {
			return true
		}
	}
	return false
}

func checkMod(c *Ctx, v any) error {
	mc := v.(*ModCase)
	var mo []modifier.Option
	var po []pilot.Option
	navs, bad := 0, ""
	for _, o := range mc.Opts {
		switch o.Op {
		case "nav", "nil":
			var nav navigation.Nav
			if o.Op == "nil" {
				bad = "no navigation object"
			} else {
				navs++
				var enc common.FormatEncoding
				if len(o.Doc) > 0 {
					nv, err := parse(o.Doc, Opts{NS: true})
					if err != nil {
						continue
					}
					nav = nv
					enc = nv.GetEncoding()
					c.Label("parsed document")
				} else {
					nav = &fakeNav{enc: common.FormatEncoding(o.Enc), size: o.Size}
					enc = common.FormatEncoding(o.Enc)
				}
				if !mc.Pilot && enc != common.FormatAscii && enc != common.FormatUtf8 {
					bad = "encoding"
				}
			}
			mo = append(mo, modifier.WithNavigation(nav))
			po = append(po, pilot.WithNavigation(nav))
		case "caching":
			po = append(po, pilot.WithCaching(o.On))
		}
	}
	if navs == 0 && bad == "" {
		return nil // building without any navigation option is not claimed
	}
	if len(mc.Opts) >= 2 {
		c.NonTrivial()
	}
	what := "modifier"
	if mc.Pilot {
		what = "pilot"
	}
	for rep := 0; rep < 2; rep++ { // option values can be used again
		var err error
		var obj bool
		if mc.Pilot {
			p, e := pilot.NewAutoPilot(po...)
			obj, err = p != nil, e
		} else {
			m, e := modifier.NewXmlModifier(mo...)
			obj, err = m != nil, e
		}
		c.Evals(1)
		if bad == "" {
			c.Label(what + " built")
			if err != nil || !obj {
				return fmt.Errorf("%s: object %v, error %v; want an object", what, obj, err)
			}
			continue
		}
		c.Label(what + " refused: " + bad)
		if err == nil || obj {
			return fmt.Errorf("%s in spite of %s: object %v, error %v", what, bad, obj, err)
		}
		if !typed(err) {
			return fmt.Errorf("%s: the error %v (%T) is none of the library's types", what, err, err)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "drawn chains of library errors and plain wrappers with any messages, positions and parameters; kind, text, fields, unwrapping and recognition at every layer against the chain; " +
			"non-trivial: at least two layers",
		New: func() any { return &ErrCase{} }, Gen: genErrCase, Check: checkErrors,
		Quick: 120000, Thorough: 10000000,
		Fixed: func(string) []any {
			// every kind alone, and every pair
			var out []any
			for _, k := range append([]string{"plain"}, allKinds...) {
				out = append(out, &ErrCase{[]ErrLayer{{k, "m", "a"}}})
				for _, k2 := range append([]string{"wrap"}, wrapKinds...) {
					out = append(out, &ErrCase{[]ErrLayer{{k, "m", "a"}, {k2, "n", "b"}}})
					for _, k3 := range append([]string{"wrap"}, wrapKinds...) {
						out = append(out, &ErrCase{[]ErrLayer{{k, "m", "a"}, {k2, "n", "b"}, {k3, "o%", "c"}}})
					}
				}
			}
			return out
		},
	})
	register(&Prop{
		ID: "C25",
		Rule: "drawn option lists (present and absent navigation objects of every encoding and many sizes, real and stand-in, caching) for modifier and pilot; verdict, object and error type against the rule; " +
			"non-trivial: at least two options",
		New: func() any { return &ModCase{} }, Gen: genModCase, Check: checkMod,
		Quick: 100000, Thorough: 6000000,
		Fixed: func(string) []any {
			var out []any
			for e := -2; e <= 40; e++ {
				for _, p := range []bool{false, true} {
					nv, nl, ca := NavOpt{Op: "nav", Enc: e, Size: 10}, NavOpt{Op: "nil"}, NavOpt{Op: "caching"}
					good := NavOpt{Op: "nav", Enc: 2, Size: 10}
					for _, o := range [][]NavOpt{{nv}, {nv, nl}, {nl, nv}, {nv, good}, {good, nv}, {ca, nv}, {nv, ca}, {nv, nv}, {nl}, {nl, ca}, {ca, nl}} {
						out = append(out, &ModCase{p, o})
					}
				}
			}
			return out
		},
	})
}
