package main

import (
	"bufio"
	"encoding/base64"
	"flag"
	"fmt"
	"os"
	"testing"

	"verif/harness/refxml"

	"pgregory.net/rapid"
)

// dump SEED N STRIDE: prints documents of every family with the reference parser's
// verdicts. tools/xcheck compares these with other parsers; no check uses it.
func cmdDump(a []string) int {
	var n, stride int
	fmt.Sscan(a[1], &n)
	fmt.Sscan(a[2], &stride)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	put := func(d []byte) error {
		r := refxml.Parse(d)
		fmt.Fprintf(w, "%s %v %v %s\n", base64.StdEncoding.EncodeToString(d), r.Verdict, r.NS, r.Reason+"|"+r.NSReason)
		return nil
	}
	if stride > 0 {
		k := 0
		step := func(d []byte) error {
			if k++; k%stride == 0 {
				return put(d)
			}
			return nil
		}
		for _, e := range enumParts("quick", 0) {
			_ = e.each(step)
		}
		for _, s := range sweepParts("quick", 0, len(sweepDocs)) {
			_ = s.each(step)
		}
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	for k, v := range map[string]string{"rapid.seed": a[0], "rapid.checks": a[1], "rapid.nofailfile": "true"} {
		_ = flag.Set(k, v)
	}
	for _, id := range []string{"C02", "C03", "C06", "C07", "C11", "C16"} {
		p := props[id]
		rapid.Check(&nullTB{}, func(t *rapid.T) {
			if c, ok := p.Gen(t).(*DocCase); ok {
				_ = put(c.Doc)
			}
		})
	}
	return 0
}
