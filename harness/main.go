package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a worker.
const (
	exitOK      = 0
	exitFail    = 10 // result file holds a failure
	exitHang    = 11 // the current case used up its CPU time
	exitMem     = 12 // the current case used up its memory
	exitHarness = 13 // trouble in the machinery
	exitRace    = 66 // GORACE exitcode
)

const memLimit = 3 << 30

type failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
	// Stream replays a failure that needs the cases before it.
	Stream *stream `json:"stream,omitempty"`
}

type stream struct {
	Tier  string `json:"tier"`
	Seed  uint64 `json:"seed"`
	Idx   int    `json:"idx"`
	Total int    `json:"total"`
}

type replayFile struct {
	Property string `json:"property"`
	failure
}

type result struct {
	Cases     int            `json:"cases"`
	Evals     int            `json:"evals"`
	Labels    map[string]int `json:"labels"`
	Samples   []string       `json:"samples"`
	Known     map[string]int `json:"known"`
	Harness   string         `json:"harness"`
	Failure   *failure       `json:"failure"`
	Completed bool           `json:"completed"`
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "one":
		os.Exit(cmdOne(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "dump":
		os.Exit(cmdDump(os.Args[2:]))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "israce":
		if props[os.Args[2]].Race {
			fmt.Println("-race")
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run PROP | replay FILE | list")
	os.Exit(2)
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// ---------------------------------------------------------------- worker

// monitor ends the process when one case takes too much CPU time or memory. It uses CPU
// time, not the wall clock, so that a busy machine changes nothing.
type monitor struct {
	seq   atomic.Int64
	limit time.Duration
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (m *monitor) start() {
	heart = m
	go func() {
		last, since := int64(-1), time.Duration(0)
		for {
			time.Sleep(100 * time.Millisecond)
			if b, err := os.ReadFile("/proc/self/statm"); err == nil {
				f := strings.Fields(string(b))
				if len(f) > 1 {
					pages, _ := strconv.ParseInt(f[1], 10, 64)
					if pages*int64(os.Getpagesize()) > memLimit {
						os.Exit(exitMem)
					}
				}
			}
			s := m.seq.Load()
			if s != last {
				last, since = s, cpuTime()
				continue
			}
			if s%2 == 1 && cpuTime()-since > m.limit {
				os.Exit(exitHang)
			}
		}
	}()
}

// heart is the monitor of this process.
var heart *monitor

// beat says that one of the many documents of a case is done: the limit is for each.
func beat() {
	if heart != nil {
		heart.seq.Add(2)
	}
}

// begin and end bracket one case.
func (m *monitor) begin() { m.seq.Add(1) }
func (m *monitor) end()   { m.seq.Add(1) }

type worker struct {
	p       *Prop
	dir     string
	mon     *monitor
	journal *os.File
	res     result
	hashes  map[uint64]struct{}
	outFile *os.File // where stdout and stderr of the process go while cases run
}

// exec runs one case: journal, check, statistics. It returns the violation, if any.
func (w *worker) exec(v any, generated bool) error {
	raw := mustJSON(v)
	w.writeJournal(raw)
	c := &Ctx{corpus: !generated}
	w.mon.begin()
	err := runCase(w.p, c, v)
	w.mon.end()
	w.res.Cases++
	w.res.Evals += 1 + c.evals
	for _, l := range c.labels {
		w.res.Labels[l]++
	}
	for _, k := range c.known {
		w.res.Known[k]++
	}
	if c.harness != "" && w.res.Harness == "" {
		w.res.Harness = c.harness + "\ncase: " + trunc(string(raw), 2000)
	}
	if c.nontrivial {
		h := hashBytes(raw)
		if _, ok := w.hashes[h]; !ok {
			w.hashes[h] = struct{}{}
			n := len(w.hashes)
			if n&(n-1) == 0 && len(w.res.Samples) < 24 { // 1st, 2nd, 4th, 8th, ...
				w.res.Samples = append(w.res.Samples, trunc(string(raw), 700))
			}
		}
	}
	if err != nil {
		if ce, ok := err.(*caseErr); ok {
			raw = mustJSON(ce.v)
		}
		w.saveFailure(&failure{Case: raw, Error: trunc(err.Error(), 6000)})
	}
	return err
}

func (w *worker) writeJournal(raw []byte) {
	var hdr [8]byte
	binary.LittleEndian.PutUint64(hdr[:], uint64(len(raw)))
	_, _ = w.journal.WriteAt(raw, 8)
	_, _ = w.journal.WriteAt(hdr[:], 0)
}

func readJournal(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := binary.LittleEndian.Uint64(b)
	if uint64(len(b)-8) < n {
		return nil
	}
	return b[8 : 8+n]
}

func (w *worker) saveFailure(f *failure) {
	w.res.Failure = f
	_ = os.WriteFile(filepath.Join(w.dir, "fail.json"), mustJSON(f), 0o644)
}

func (w *worker) finish() {
	buf := make([]byte, 0, 8*len(w.hashes))
	for h := range w.hashes {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	_ = os.WriteFile(filepath.Join(w.dir, "hashes"), buf, 0o644)
	_ = os.WriteFile(filepath.Join(w.dir, "result.json"), mustJSON(&w.res), 0o644)
}

type tbStop struct{}

type nullTB struct {
	failed bool
	msgs   []string
}

func (t *nullTB) note(s string) {
	if len(t.msgs) < 20 {
		t.msgs = append(t.msgs, trunc(s, 1500))
	}
}

func (t *nullTB) Helper()                   {}
func (t *nullTB) Name() string              { return "harness" }
func (t *nullTB) Logf(string, ...any)       {}
func (t *nullTB) Log(...any)                {}
func (t *nullTB) Skipf(string, ...any)      {}
func (t *nullTB) Skip(...any)               {}
func (t *nullTB) SkipNow()                  {}
func (t *nullTB) Errorf(f string, a ...any) { t.failed = true; t.note(fmt.Sprintf(f, a...)) }
func (t *nullTB) Error(...any)              { t.failed = true }
func (t *nullTB) Fatalf(f string, a ...any) {
	t.failed = true
	t.note(fmt.Sprintf(f, a...))
	panic(tbStop{})
}
func (t *nullTB) Fatal(...any) { t.failed = true; panic(tbStop{}) }
func (t *nullTB) FailNow()     { t.failed = true; panic(tbStop{}) }
func (t *nullTB) Fail()        { t.failed = true }
func (t *nullTB) Failed() bool { return t.failed }

func share(total, idx, n int) int {
	s := total / n
	if idx < total%n {
		s++
	}
	return s
}

// worker PROP TIER SEED IDX TOTAL DIR
func cmdWorker(a []string) int {
	p := props[a[0]]
	tier := a[1]
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	idx, _ := strconv.Atoi(a[3])
	total, _ := strconv.Atoi(a[4])
	dir := a[5]

	debug.SetMaxStack(256 << 20)
	jf, err := os.Create(filepath.Join(dir, "journal"))
	if err != nil {
		return exitHarness
	}
	w := &worker{p: p, dir: dir, journal: jf, hashes: map[uint64]struct{}{},
		mon: &monitor{limit: time.Duration(p.CPULimit) * time.Second}}
	w.res.Labels = map[string]int{}
	w.res.Known = map[string]int{}
	w.mon.start()
	defer w.finish()

	code := func() int {
		if w.res.Harness != "" {
			return exitHarness
		}
		if w.res.Failure != nil {
			return exitFail
		}
		w.res.Completed = true
		return exitOK
	}

	// saved and enumerated cases
	var fixed []any
	if idx == 0 {
		fixed = append(fixed, corpusCases(p)...)
	}
	if p.Fixed != nil {
		for k, v := range p.Fixed(tier) {
			if k%total == idx {
				fixed = append(fixed, v)
			}
		}
	}
	for _, v := range fixed {
		w.res.Labels["fixed"]++
		if w.exec(v, false) != nil {
			return code()
		}
	}

	checks := p.Quick
	if tier == "thorough" {
		checks = p.Thorough
	}
	n := share(checks, idx, total)
	if p.Gen == nil || n == 0 {
		return code()
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	rs := hashBytes([]byte(fmt.Sprintf("%s/%s/%d/%d", p.ID, "gen", seed, idx)))
	if rs == 0 {
		rs = 1
	}
	for k, v := range map[string]string{
		"rapid.seed": strconv.FormatUint(rs, 10), "rapid.checks": strconv.Itoa(n),
		"rapid.nofailfile": "true", "rapid.shrinktime": "20s",
	} {
		if err := flag.Set(k, v); err != nil {
			w.res.Harness = err.Error()
			return code()
		}
	}
	_ = os.Chdir(dir)
	tb := &nullTB{}
	generatorFailed := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(tbStop); !ok {
					generatorFailed = fmt.Sprint(e)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			v := p.Gen(t)
			if w.exec(v, true) != nil {
				t.Fatalf("violation")
			}
		})
	}()
	if generatorFailed != "" && w.res.Harness == "" {
		w.res.Harness = "generator: " + generatorFailed
	}
	if tb.failed && w.res.Failure == nil && w.res.Harness == "" {
		w.res.Harness = "the generator failed (panic or too few valid cases):\n" + strings.Join(tb.msgs, "\n")
	}
	return code()
}

func corpusCases(p *Prop) []any {
	files, _ := filepath.Glob(filepath.Join(verifDir(), "harness", "corpus", p.ID, "*.json"))
	sort.Strings(files)
	var out []any
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			panic(fmt.Sprintf("%s: %v", f, err))
		}
		v := p.New()
		if err := json.Unmarshal(rf.Case, v); err != nil {
			panic(fmt.Sprintf("%s: %v", f, err))
		}
		out = append(out, v)
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// one PROP CASEFILE OUTFILE: executes a single case in this process.
func cmdOne(a []string) int {
	p := props[a[0]]
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(a[1])
	if err != nil {
		return exitHarness
	}
	v := p.New()
	if err := json.Unmarshal(b, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	m := &monitor{limit: time.Duration(p.CPULimit) * time.Second}
	m.start()
	reps := 1
	if p.Race {
		reps = 30
	}
	for k := 0; k < reps; k++ {
		c := &Ctx{corpus: true}
		m.begin()
		err = runCase(p, c, v)
		m.end()
		if c.harness != "" {
			_ = os.WriteFile(a[2], []byte(c.harness), 0o644)
			return exitHarness
		}
		if err != nil {
			_ = os.WriteFile(a[2], []byte(err.Error()), 0o644)
			return exitFail
		}
	}
	return exitOK
}

// ---------------------------------------------------------------- orchestration

func exitReason(code int, sig bool) string {
	switch {
	case code == exitHang:
		return "the case does not terminate within its CPU time"
	case code == exitMem:
		return "the case needs more than 3 GB of memory"
	case code == exitRace:
		return "the race detector reported a data race"
	default:
		return "the process died (crash of the library)"
	}
}

func runCmd(cmd *exec.Cmd) int {
	err := cmd.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	return -2
}

// isolate runs one case in a process of its own and tells whether it fails there.
func isolate(p *Prop, raw []byte, dir string) (bool, string) {
	cf, of := filepath.Join(dir, "one.json"), filepath.Join(dir, "one.out")
	_ = os.Remove(of)
	if err := os.WriteFile(cf, raw, 0o644); err != nil {
		return false, err.Error()
	}
	cmd := exec.Command(os.Args[0], "one", p.ID, cf, of)
	ef, _ := os.Create(filepath.Join(dir, "one.err"))
	cmd.Stdout, cmd.Stderr = ef, ef
	cmd.Dir = dir
	code := runCmd(cmd)
	ef.Close()
	out, _ := os.ReadFile(of)
	errOut, _ := os.ReadFile(filepath.Join(dir, "one.err"))
	switch code {
	case exitOK:
		return false, ""
	case exitHarness, -2:
		return false, "harness: " + string(out) + string(errOut)
	case exitFail:
		return true, string(out)
	default:
		return true, exitReason(code, false) + "\n" + trunc(string(errOut), 3000)
	}
}

func spawn(p *Prop, tier string, seed uint64, idx, total int, dir string) int {
	_ = os.MkdirAll(dir, 0o755)
	cmd := exec.Command(os.Args[0], "worker", p.ID, tier, strconv.FormatUint(seed, 10),
		strconv.Itoa(idx), strconv.Itoa(total), dir)
	f, err := os.Create(filepath.Join(dir, "output"))
	if err != nil {
		return -2
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.Dir = dir
	cmd.Env = os.Environ()
	if total > 1 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	return runCmd(cmd)
}

func loadResult(dir string) *result {
	b, err := os.ReadFile(filepath.Join(dir, "result.json"))
	if err != nil {
		return nil
	}
	var r result
	if json.Unmarshal(b, &r) != nil {
		return nil
	}
	return &r
}

// confirm turns what a worker left behind into a violation (with its replay) or into
// trouble of the machinery.
func confirm(p *Prop, code int, dir string, st stream, seed uint64) (*failure, string) {
	var f *failure
	if b, err := os.ReadFile(filepath.Join(dir, "fail.json")); err == nil {
		f = &failure{}
		if json.Unmarshal(b, f) != nil {
			f = nil
		}
	}
	if f == nil {
		raw := readJournal(filepath.Join(dir, "journal"))
		out, _ := os.ReadFile(filepath.Join(dir, "output"))
		if raw == nil {
			return nil, fmt.Sprintf("worker ended with %d and left no case:\n%s", code, trunc(string(out), 3000))
		}
		f = &failure{Case: append([]byte(nil), raw...), Error: exitReason(code, false) + "\n" + trunc(string(out), 3000)}
		if code == exitRace {
			return f, "" // the race detector has no false alarms
		}
	}
	if ok, msg := isolate(p, f.Case, dir); ok {
		f.Error = msg
		return f, ""
	} else if strings.HasPrefix(msg, "harness:") {
		return nil, msg
	}
	// It does not fail alone: it may need the cases before it in the same process.
	d2 := dir + ".again"
	code2 := spawn(p, st.Tier, seed, st.Idx, st.Total, d2)
	if code2 == code && code != exitOK && code != exitHarness {
		f.Stream = &st
		f.Error += "\n(the failure needs the cases generated before it in the same process)"
		return f, ""
	}
	return nil, fmt.Sprintf("a failure could not be reproduced (worker %d then %d): %s\ncase: %s", code, code2, f.Error, trunc(string(f.Case), 2000))
}

func cmdRun(a []string) int {
	p := props[a[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", a[0])
		return 2
	}
	start := time.Now()
	seed, tier := envSeed(), envTier()
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	total := runtime.NumCPU()
	if total > 8 {
		total = 8
	}
	if total < 1 {
		total = 1
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		total = v
	} else {
		total = 8 // the same partition of the cases everywhere
	}
	codes := make([]int, total)
	dirs := make([]string, total)
	var wg sync.WaitGroup
	for i := 0; i < total; i++ {
		dirs[i] = filepath.Join(tmp, fmt.Sprintf("w%d", i))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			codes[i] = spawn(p, tier, seed, i, total, dirs[i])
		}(i)
	}
	wg.Wait()

	cases, evals := 0, 0
	labels, known := map[string]int{}, map[string]int{}
	distinct := map[uint64]struct{}{}
	var samples []string
	var fail *failure
	trouble := ""
	for i := range codes {
		r := loadResult(dirs[i])
		if r != nil {
			cases += r.Cases
			evals += r.Evals
			for k, v := range r.Labels {
				labels[k] += v
			}
			for k, v := range r.Known {
				known[k] += v
			}
			if i < 3 {
				n := min(len(r.Samples), 3)
				// the later samples come from deeper in the stream
				samples = append(samples, r.Samples[len(r.Samples)-n:]...)
			}
			if r.Harness != "" && trouble == "" {
				trouble = r.Harness
			}
			hb, _ := os.ReadFile(filepath.Join(dirs[i], "hashes"))
			for k := 0; k+8 <= len(hb); k += 8 {
				distinct[binary.LittleEndian.Uint64(hb[k:])] = struct{}{}
			}
		}
		if codes[i] == exitOK && (r == nil || !r.Completed) && trouble == "" {
			trouble = "a worker ended early"
		}
		if codes[i] != exitOK && codes[i] != exitHarness && fail == nil {
			f, why := confirm(p, codes[i], dirs[i], stream{tier, seed, i, total}, seed)
			if f != nil {
				fail = f
			} else if trouble == "" {
				trouble = why
			}
		}
		if codes[i] == exitHarness && trouble == "" {
			out, _ := os.ReadFile(filepath.Join(dirs[i], "output"))
			trouble = "worker reported trouble\n" + trunc(string(out), 3000)
		}
	}
	wall := time.Since(start).Seconds()

	violations := 0
	if fail != nil {
		violations = 1
	}
	writeEvidence(p, tier, seed, cases, evals, len(distinct), labels, known, samples, violations, wall)

	for _, f := range findings(p.ID) {
		if known[f.id] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
		}
	}
	fmt.Printf("%s: %d cases (%d oracle evaluations), %d distinct non-trivial, %.1f s, seed %d, tier %s\n",
		p.ID, cases, evals, len(distinct), wall, seed, tier)
	if os.Getenv("VERIF_LABELS") != "" {
		var ks []string
		for k := range labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %d\n", k, labels[k])
		}
	}
	if fail != nil {
		dir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, hashBytes(fail.Case)))
		b, _ := json.MarshalIndent(replayFile{p.ID, *fail}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Println(trunc(fail.Error, 3000))
		fmt.Println("case:", trunc(string(fail.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if trouble != "" {
		fmt.Println("TROUBLE:", trouble)
		return 2
	}
	return 0
}

func writeEvidence(p *Prop, tier string, seed uint64, cases, evals, distinct int, labels, known map[string]int,
	samples []string, violations int, wall float64) {
	ss := make([]any, 0, len(samples))
	for _, s := range samples {
		var v any
		if json.Unmarshal([]byte(s), &v) == nil {
			ss = append(ss, v)
		} else {
			ss = append(ss, s)
		}
	}
	cov := map[string]any{
		"evaluations": cases, "oracle_comparisons": evals, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": ss,
		"classes": labels,
	}
	if len(known) > 0 {
		cov["excluded_known_findings"] = known
	}
	if p.Exhaustive != nil && p.Exhaustive(tier) {
		cov["exhaustive"] = true
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations,
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// ---------------------------------------------------------------- known findings

type finding struct{ id, text string }

// findings reads the listed findings of a property: lines
// "finding: property=<id> [<finding id>] <text>".
func findings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" [")
		if !ok {
			continue
		}
		id, text, ok := strings.Cut(rest, "] ")
		if ok {
			out = append(out, finding{id, text})
		}
	}
	return out
}

var listedCache sync.Map

// listed tells whether a finding is listed for a property; what is not listed is a
// violation.
func listed(prop, id string) bool {
	key := prop + "/" + id
	if v, ok := listedCache.Load(key); ok {
		return v.(bool)
	}
	r := false
	for _, f := range findings(prop) {
		if f.id == id {
			r = true
		}
	}
	listedCache.Store(key, r)
	return r
}

func cmdReplay(a []string) int {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rf.Property]
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	if rf.Stream != nil {
		code := spawn(p, rf.Stream.Tier, rf.Stream.Seed, rf.Stream.Idx, rf.Stream.Total, tmp)
		if code == exitOK {
			return 0
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, a[0])
		return 1
	}
	bad, msg := isolate(p, rf.Case, tmp)
	if bad {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, a[0])
		return 1
	}
	if msg != "" {
		fmt.Println(msg)
		return 2
	}
	fmt.Println("does not fail")
	return 0
}
