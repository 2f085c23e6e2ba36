#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: builds /verif/seeded/<ID>/ from a list of edits and confirms each one
in a scratch copy of /repo: the edit changes original lines, builds, passes the existing tests, and
its demonstration passes without it and fails with it. Then runs the property's check (and prints
which others catch it with -all) against the copy."""
import json, os, re, shutil, subprocess, sys, importlib.util, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
PRELUDE = '''package parser_test

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/modifier"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/parser"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/pilot"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

var (
	_ = bytes.Equal
	_ = errors.As
	_ = fmt.Sprint
	_ = os.Stdout
	_ = runtime.GC
	_ = strings.Repeat
	_ = syscall.Dup
	_ sync.Mutex
	_ buffer.Buffer
	_ common.Token
	_ error = (*erroring.ParseError)(nil)
	_ modifier.Option
	_ navigation.Nav
	_ pilot.Option
	_ reader.Reader
)

func parse(doc string, opts ...parser.Option) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(append([]parser.Option{parser.WithXmlDoc([]byte(doc))}, opts...)...)
	if err != nil {
		return nil, err
	}
	if err := p.Parse(); err != nil {
		return nil, err
	}
	return p.GetNav()
}

func ok(t *testing.T, doc string, opts ...parser.Option) *navigation.VtdNav {
	t.Helper()
	nav, err := parse(doc, opts...)
	if err != nil {
		t.Fatalf("%.200q: %v", doc, err)
	}
	return nav
}

func bad(t *testing.T, doc string, opts ...parser.Option) error {
	t.Helper()
	_, err := parse(doc, opts...)
	if err == nil {
		t.Fatalf("%.200q is accepted", doc)
	}
	return err
}

// tokens lists type, offset, length and depth of every token.
func tokens(nav *navigation.VtdNav) string {
	var s []string
	for i := 0; i < nav.GetVtdBufferSize(); i++ {
		k, _ := nav.GetTokenType(i)
		o, _ := nav.GetTokenOffset(i)
		l, _ := nav.GetTokenLength(i)
		d, _ := nav.GetTokenDepth(i)
		s = append(s, fmt.Sprintf("%d@%d+%d/%d", k, o, l, d))
	}
	return strings.Join(s, " ")
}

func same(t *testing.T, what string, got, want interface{}) {
	t.Helper()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("%s: %v, expected %v", what, got, want)
	}
}

var ns = parser.WithNameSpaceAware(true)

// walk does one move per letter (root, parent, first, last, next, previous) and gives the verdicts
// and the name of the element it ends on.
func walk(t *testing.T, nav *navigation.VtdNav, moves string) string {
	t.Helper()
	s := ""
	for _, m := range moves {
		moved, err := nav.ToElement(navigation.Direction(strings.IndexRune("rpflnv", m)))
		if err != nil {
			t.Fatal(err)
		}
		if moved {
			s += "+"
		} else {
			s += "-"
		}
	}
	i, err := nav.GetCurrentIndex()
	if err != nil {
		t.Fatal(err)
	}
	name, err := nav.ToRawStringAtIndex(int(i))
	if err != nil {
		t.Fatal(err)
	}
	return s + " " + name
}
'''
DEMO = '''#!/bin/bash
# Run in /repo after the build: 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/vtdxml/parser/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" >"$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s %s-run '^TestDemo$' ./vtdxml/parser
'''
def sh(cmd, cwd=WT, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)

def original_lines(f):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout
    return [l.startswith("^") for l in out.splitlines()]

def harness():
    """Builds the harness against the scratch copy."""
    mod = open(V + "/harness/go.mod").read().replace("=> /repo", "=> " + WT)
    open("/tmp/plant.mod", "w").write(mod); shutil.copy(V + "/harness/go.sum", "/tmp/plant.sum")
    a = sh("go build -mod=readonly -modfile=/tmp/plant.mod -o /tmp/plant-h . && go build -race -mod=readonly -modfile=/tmp/plant.mod -o /tmp/plant-hr .", cwd=V + "/harness")
    return a.returncode == 0, a.stderr

def check(p, seed=1):
    shutil.copy(V + "/KNOWN_FINDINGS.txt", "/tmp/plant-v/KNOWN_FINDINGS.txt")
    r = sh(("/tmp/plant-hr" if p == "C26" else "/tmp/plant-h") + " run " + p, cwd="/tmp", env={"VERIF_DIR": "/tmp/plant-v", "VERIF_SEED": str(seed), "VERIF_TIER": "quick"})
    return r.returncode, r.stdout + r.stderr

def main():
    args = sys.argv[1:]
    every = "-all" in args
    args = [a for a in args if a != "-all"]
    spec = importlib.util.spec_from_file_location("bugs", args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(args[1:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    os.makedirs("/tmp/plant-v", exist_ok=True)
    for b in m.BUGS:
        if want and b["id"] not in want: continue
        subprocess.run(["rm", "-rf", WT]); subprocess.run(["cp", "-a", "/repo", WT])
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo_test.go", "w").write(PRELUDE + "\nfunc TestDemo(t *testing.T) {\n" + textwrap.indent(textwrap.dedent(b["demo"]).strip("\n"), "\t") + "\n}\n" + b.get("more", ""))
        sh("gofmt -w " + d + "/demo_test.go")
        open(d + "/demo.sh", "w").write(DEMO % ("-race " if b.get("race") else "")); os.chmod(d + "/demo.sh", 0o755)
        r = sh(d + "/demo.sh")
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS UNPATCHED\n", r.stdout[-1500:], r.stderr[-500:]); continue
        problem = None
        for f, old, new in b["edits"]:
            p = f"{WT}/vtdxml/{f}"; s = open(p).read()
            if s.count(old) != 1:
                problem = f"{f}: {s.count(old)} matches of {old!r}"; break
            open(p, "w").write(s.replace(old, new))
        if problem:
            print(b["id"], problem); continue
        sh("gofmt -w " + " ".join(f"vtdxml/{e[0]}" for e in b["edits"]))
        diff = sh("git diff").stdout
        # every removed line is original
        cur = None; ln = 0; removed = orig = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]; flags = original_lines(cur)
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
            elif l.startswith("-") and not l.startswith("---"): removed += 1; orig += flags[ln]; ln += 1
            elif l.startswith(" "): ln += 1
        note = "" if removed and removed == orig else f" [removed {removed}, original {orig}]"
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1")
        if r.returncode != 0:
            print(b["id"], "BUILD OR TESTS FAIL", "\n".join(l for l in (r.stdout + r.stderr).splitlines() if "FAIL" in l or "error" in l or ".go:" in l)[:1200]); continue
        r = sh(d + "/demo.sh")
        if r.returncode == 0:
            print(b["id"], "DEMO PASSES PATCHED"); continue
        why = [l.strip() for l in r.stdout.splitlines() if "demo_test.go" in l or "panic:" in l or "DATA RACE" in l][:1]
        okb, err = harness()
        if not okb:
            print(b["id"], "harness does not build", err); continue
        caught = []
        ids = [b["prop"]] + ([p for p in sh("/tmp/plant-h list", cwd="/tmp").stdout.split() if p != b["prop"]] if every else [])
        for p in ids:
            rc, out = check(p)
            if rc == 1 and f"VIOLATION property={p} " in out: caught.append(p)
            elif rc != 0: caught.append(p + f"(rc {rc}: {out[-300:]})")
        print(b["id"], b["prop"], "CAUGHT" if b["prop"] in caught else "MISSED", " ".join(caught), note, "| demo:", why, flush=True)
    subprocess.run(["rm", "-rf", WT])
if __name__ == "__main__": main()
