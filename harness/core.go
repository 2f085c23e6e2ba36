package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Blob is a byte string that is readable in JSON when it is text.
type Blob []byte

func (b Blob) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) && !bytes.ContainsRune(b, utf8.RuneError) {
		return json.Marshal("t:" + string(b))
	}
	return json.Marshal("b:" + base64.StdEncoding.EncodeToString(b))
}

func (b *Blob) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	switch {
	case strings.HasPrefix(s, "t:"):
		*b = Blob(s[2:])
		return nil
	case strings.HasPrefix(s, "b:"):
		v, err := base64.StdEncoding.DecodeString(s[2:])
		*b = v
		return err
	}
	return fmt.Errorf("malformed blob")
}

// Ctx collects what one execution of a check observed.
type Ctx struct {
	labels     []string
	nontrivial bool
	evals      int // additional evaluations of the oracle inside one case
	known      []string
	harness    string // trouble in the harness itself (never a violation)
	corpus     bool   // a fixed or corpus case: it need not come from the generator
}

func (c *Ctx) Label(s string) { c.labels = append(c.labels, s) }

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Known records an occurrence of a listed finding.
func (c *Ctx) Known(id string) { c.known = append(c.known, id) }

// Evals counts further comparisons made in this case.
func (c *Ctx) Evals(n int) { c.evals += n }

// Harness reports trouble in the machinery: it ends the run with an error, not with a
// violation.
func (c *Ctx) Harness(format string, args ...any) {
	if c.harness == "" {
		c.harness = fmt.Sprintf(format, args...)
	}
}

// Prop is one property's check.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Gen      func(t *rapid.T) any
	New      func() any
	Check    func(c *Ctx, v any) error
	Fixed    func(tier string) []any // enumerated cases, run besides the generated ones
	Quick    int                     // generated cases of the quick tier
	Thorough int
	CPULimit int  // CPU seconds one case may take before it counts as not terminating
	Race     bool // needs a binary built with the race detector
	Assume   []string
	// Exhaustive tells that the fixed cases of the tier enumerate a finite space.
	Exhaustive func(tier string) bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.CPULimit == 0 {
		p.CPULimit = 30
	}
	props[p.ID] = p
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// runCase executes the check; a panic of the library is a violation.
func runCase(p *Prop, c *Ctx, v any) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessPanic); ok {
				c.Harness("%s", string(h))
				err = nil
				return
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return p.Check(c, v)
}

// guard turns a panic of the library inside f into an error, so that a case made of many
// can name the single one.
func guard(f func() error) (err error) {
	beat()
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessPanic); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return f()
}

type harnessPanic string

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/vtdxml/") || strings.Contains(l, "go-vtd-xml") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessPanic("marshal: " + err.Error()))
	}
	return b
}

func trunc(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
}
