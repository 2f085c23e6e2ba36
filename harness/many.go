package main

// Part is a part of one of the families of many small documents (enumeration, runs,
// sweep, pumping), for checks whose cases are more than a document.
type Part struct {
	Enum  *Enum  `json:"enum,omitempty"`
	Sweep *Sweep `json:"sweep,omitempty"`
	Pump  *Pump  `json:"pump,omitempty"`
	Scale *Scale `json:"scale,omitempty"`
	Trans *Trans `json:"trans,omitempty"`
}

func (p *Part) each(f func(doc []byte) error) error {
	switch {
	case p.Enum != nil:
		return p.Enum.each(f)
	case p.Sweep != nil:
		return p.Sweep.each(f)
	case p.Pump != nil:
		return p.Pump.each(f)
	case p.Scale != nil:
		return p.Scale.each(f)
	case p.Trans != nil:
		return p.Trans.each(f)
	}
	return nil
}

func (p *Part) label() string {
	switch {
	case p.Enum != nil && p.Enum.Run > 0:
		return "runs: " + enumCtxs[p.Enum.Ctx].name
	case p.Enum != nil:
		return "enumerated part: " + enumCtxs[p.Enum.Ctx].name
	case p.Sweep != nil:
		return "edit sweep"
	case p.Scale != nil:
		return "scaling: " + p.Scale.Kind
	case p.Trans != nil:
		return p.Trans.label()
	}
	return "pumping"
}

// run checks the case that one makes of each document; a violation names the single case.
func (p *Part) run(c *Ctx, one func(doc []byte, k int) any, check func(*Ctx, any) error) error {
	c.Label(p.label())
	sub := &Ctx{corpus: true}
	k := 0
	err := p.each(func(doc []byte) error {
		sub.labels = sub.labels[:0]
		v := one(doc, k)
		k++
		if v == nil {
			return nil
		}
		if err := guard(func() error { return check(sub, v) }); err != nil {
			if len(doc) > 1<<20 {
				return err
			}
			return &caseErr{v, err}
		}
		return nil
	})
	c.evals += sub.evals
	c.nontrivial = c.nontrivial || sub.nontrivial
	c.known = append(c.known, sub.known...)
	if sub.harness != "" {
		c.Harness("%s", sub.harness)
	}
	return err
}

// partList lists the families; less shortens the enumerated sequences of the quick tier,
// which takes one part in thin.
func partList(tier string, less, thin int) []*Part {
	if tier == "thorough" {
		less, thin = max(0, less-1), 1
	}
	var out []*Part
	for _, e := range append(enumParts(tier, less), enumRuns(tier)...) {
		out = append(out, &Part{Enum: e})
	}
	for _, s := range sweepParts("quick", 0, len(sweepDocs)) {
		out = append(out, &Part{Sweep: s})
	}
	for _, p := range pumpParts(tier, 0) {
		out = append(out, &Part{Pump: p})
	}
	if thin < 2 {
		return out
	}
	// the parts of one context follow one another: take them at a stride
	var some []*Part
	for i := 0; i < len(out); i += thin {
		some = append(some, out[i])
	}
	return some
}

// scaled lists parts of the scaling family as parts: those of the kinds, at most max units
// each (0: any number).
func scaled(tier string, max int, kinds ...string) []*Part {
	var out []*Part
	for _, s := range scaleParts(tier, kinds...) {
		if max == 0 || s.N <= max {
			out = append(out, &Part{Scale: s})
		}
	}
	return out
}

// sparse takes one part in k, in the quick tier.
func sparse(tier string, k int, l []*Part) []*Part {
	if tier == "thorough" {
		return l
	}
	var out []*Part
	for i := k / 2; i < len(l); i += k {
		out = append(out, l[i])
	}
	return out
}

// transplanted lists parts of the family of transplants as parts.
func transplanted(tier string, set, work int, ok bool) []*Part {
	var out []*Part
	for _, t := range transParts(tier, set, work, ok) {
		out = append(out, &Part{Trans: t})
	}
	return out
}
