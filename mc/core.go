package main

// Core of the explorer: deterministic case lists, worker processes, coverage
// accounting, failure classification, replay.

import (
	"bufio"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- cases

// Case is one unit of exploration: a deterministic, self-contained
// exploration of part of the bounded space. Cases are enumerated identically
// by the parent and by every worker.
type Case struct {
	ID  string
	Run func(t *T)
}

// Prop is one property's check.
type Prop struct {
	ID    string
	Level string
	Rule  string // how cases are made and what makes one non-trivial
	Notes []string
	Cases func(tier string) []Case
}

// cases is the case list in its one canonical order: parent, workers and
// replays index into the same list.
func (p *Prop) cases(tier string) []Case {
	cs := p.Cases(tier)
	for _, f := range extras[p.ID] {
		cs = append(cs, f(tier)...)
	}
	sort.SliceStable(cs, func(a, b int) bool {
		return cs[a].ID < cs[b].ID
	})
	return cs
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// extras are further case lists of a property, besides its own.
var extras = map[string][]func(tier string) []Case{}

func extend(id string, f ...func(tier string) []Case) { extras[id] = append(extras[id], f...) }

// Failure is one observed violation of a property. Key is stable across runs
// and identifies the specific input, call site or history that fails.
type Failure struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Result is what a worker reports for one case.
type Result struct {
	Idx      int            `json:"idx"`
	Fails    []Failure      `json:"fails,omitempty"`
	States   []uint64       `json:"states,omitempty"`
	Trans    int            `json:"trans,omitempty"`
	Traces   int            `json:"traces,omitempty"`
	Evals    int            `json:"evals,omitempty"`
	NonTriv  []uint64       `json:"nontriv,omitempty"`
	Outcomes map[string]int `json:"outcomes,omitempty"`
	Samples  []string       `json:"samples,omitempty"`
	Capped   bool           `json:"capped,omitempty"`
	MS       int64          `json:"ms"`
	Death    string         `json:"-"`
}

// T is handed to a running case.
type T struct {
	tier  string
	id    string
	r     *Result
	seen  map[uint64]bool
	seenN map[uint64]bool
	fk    map[string]bool
	rng   *DRBG
}

func h64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			var l [4]byte
			binary.LittleEndian.PutUint32(l[:], uint32(len(v)))
			h.Write(l[:])
			h.Write(v)
		default:
			fmt.Fprintf(h, "%v|", v)
		}
	}
	return h.Sum64()
}

func (t *T) Thorough() bool { return t.tier == "thorough" }

// Fail records a violation. Only the first occurrence of a key is kept.
func (t *T) Fail(key, format string, args ...interface{}) {
	if t.fk[key] {
		return
	}
	t.fk[key] = true
	if len(t.r.Fails) < 60 {
		t.r.Fails = append(t.r.Fails, Failure{Key: key, Detail: fmt.Sprintf(format, args...)})
	}
}

// State records a distinct canonical state.
func (t *T) State(parts ...interface{}) bool {
	h := h64(parts...)
	if t.seen[h] {
		return false
	}
	t.seen[h] = true
	t.r.States = append(t.r.States, h)
	return true
}

// NonTrivial records a distinct non-trivial evaluation.
func (t *T) NonTrivial(parts ...interface{}) {
	h := h64(parts...)
	if t.seenN[h] {
		return
	}
	t.seenN[h] = true
	t.r.NonTriv = append(t.r.NonTriv, h)
}

func (t *T) Trans(n int)  { t.r.Trans += n }
func (t *T) Trace()       { t.r.Traces++ }
func (t *T) Eval(n int)   { t.r.Evals += n }
func (t *T) Capped()      { t.r.Capped = true }
func (t *T) Out(o string) { t.r.Outcomes[o]++ }

// Step is one executed and judged operation: an evaluation, a transition, a
// non-trivial case, with its observed outcome.
func (t *T) Step(outcome string, parts ...interface{}) {
	t.r.Evals++
	t.r.Trans++
	t.NonTrivial(parts...)
	t.r.Outcomes[outcome]++
}

func (t *T) Sample(format string, args ...interface{}) {
	if len(t.r.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		t.r.Samples = append(t.r.Samples, s)
	}
}

// Guard runs f; a panic inside is a failure under key.
func (t *T) Guard(key string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			t.Fail(key, "panic: %v\n%s", p, shortStack())
		}
	}()
	f()
	return true
}

// panics runs f and reports whether (and how) it panicked.
func panics(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	f()
	return ""
}

func shortStack() string {
	s := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i+1 < len(s); i++ {
		if strings.HasPrefix(s[i], "github.com/dusk-network") || strings.HasPrefix(s[i], "main.") {
			out = append(out, s[i]+" "+strings.TrimSpace(s[i+1]))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- randomness

// DRBG is the deterministic byte source installed as crypto/rand.Reader: the
// explorer owns the randomness of the code under test.
type DRBG struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
	n   uint64 // bytes handed out

	lo, hi uint64 // bytes [lo,hi) of the stream are handed out complemented
}

func NewDRBG(parts ...interface{}) *DRBG {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	d := &DRBG{}
	copy(d.key[:], h.Sum(nil))
	return d
}

func (d *DRBG) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.key[:])
			binary.LittleEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			s := sha256.Sum256(b[:])
			d.buf = s[:]
		}
		p[i] = d.buf[0]
		if d.n >= d.lo && d.n < d.hi {
			p[i] = ^p[i]
		}
		d.buf = d.buf[1:]
		d.n++
	}
	return len(p), nil
}

var sysRand = rand.Reader
var verifSeed = func() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}()

// Reseed installs a fresh deterministic stream.
func (t *T) Reseed(parts ...interface{}) {
	t.rng = NewDRBG(append([]interface{}{verifSeed, t.id}, parts...)...)
	rand.Reader = t.rng
}

// ---------------------------------------------------------------- worker

func runCase(c Case, tier string) *Result {
	r := &Result{Outcomes: map[string]int{}}
	t := &T{tier: tier, id: c.ID, r: r, seen: map[uint64]bool{}, seenN: map[uint64]bool{}, fk: map[string]bool{}}
	t.Reseed()
	st := time.Now()
	func() {
		defer func() {
			if p := recover(); p != nil {
				t.Fail(c.ID+"/panic", "panic: %v\n%s", p, shortStack())
			}
		}()
		c.Run(t)
	}()
	r.MS = time.Since(st).Milliseconds()
	return r
}

func workerMain(p *Prop, tier string) {
	// an escaped allocation bomb ends this worker, not the sandbox
	// (the race detector reserves more address space than that)
	if !raceOn {
		lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	cases := p.cases(tier)
	in := bufio.NewScanner(os.NewFile(3, "in"))
	out := bufio.NewWriterSize(os.NewFile(4, "out"), 1<<20)
	enc := json.NewEncoder(out)
	for in.Scan() {
		i, err := strconv.Atoi(in.Text())
		if err != nil || i < 0 || i >= len(cases) {
			os.Exit(3)
		}
		r := runCase(cases[i], tier)
		r.Idx = i
		if err := enc.Encode(r); err != nil {
			os.Exit(3)
		}
		out.Flush()
	}
	os.Exit(0)
}

type worker struct {
	bin string
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
	of  *os.File
	err *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

// binFor is the program that runs a case: cases whose ID begins with
// "monitor/" run in the build with the race detector, if there is one.
func binFor(id string) string {
	if b := os.Getenv("VERIF_RACE_BIN"); b != "" && strings.HasPrefix(id, "monitor/") {
		return b
	}
	return os.Args[0]
}

func startWorker(prop, tier, bin string) (*worker, error) {
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "worker", prop, tier)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 history_size=5 strip_path_prefix=/repo/")
	cmd.ExtraFiles = []*os.File{inR, outW}
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	inR.Close()
	outW.Close()
	return &worker{bin: bin, cmd: cmd, in: inW, out: bufio.NewReaderSize(outR, 1<<20), of: outR, err: tb}, nil
}

func (w *worker) stop() {
	w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
	w.of.Close()
}

var errHang = fmt.Errorf("hang")

func (w *worker) do(i int, limit time.Duration) (*Result, error) {
	if _, err := fmt.Fprintf(w.in, "%d\n", i); err != nil {
		return nil, err
	}
	type ans struct {
		r *Result
		e error
	}
	ch := make(chan ans, 1)
	go func() {
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			ch <- ans{nil, err}
			return
		}
		r := &Result{}
		if err := json.Unmarshal(line, r); err != nil {
			ch <- ans{nil, err}
			return
		}
		ch <- ans{r, nil}
	}()
	select {
	case a := <-ch:
		return a.r, a.e
	case <-time.After(limit):
		return nil, errHang
	}
}

// ---------------------------------------------------------------- parent

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() (*KnownFile, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil, err
	}
	k := &KnownFile{}
	return k, json.Unmarshal(b, k)
}

type caseFailure struct {
	idx  int
	f    Failure
	hist []int // cases the same worker ran before this one
	full bool  // the failure needs that history
}

func envDur(name string, def time.Duration) time.Duration {
	if s := os.Getenv(name); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	return def
}

func checkMain(p *Prop, tier string) int {
	start := time.Now()
	deadline := envDur("VERIF_DEADLINE", 330*time.Second)
	hang := envDur("VERIF_HANG", 150*time.Second)
	if tier == "thorough" {
		deadline = envDur("VERIF_DEADLINE", 3*time.Hour)
		hang = envDur("VERIF_HANG", 1800*time.Second)
	}
	known, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	isKnown := func(key string) *Known {
		for i := range known.Findings {
			k := &known.Findings[i]
			if k.Property == p.ID && k.Key == key {
				return k
			}
		}
		return nil
	}
	cases := p.cases(tier)
	only := os.Getenv("VERIF_ONLY")
	failfast := os.Getenv("VERIF_FAILFAST") != "" // for trying changes out
	var todo []int
	ids := map[string]bool{}
	for i, c := range cases {
		if ids[c.ID] {
			fmt.Fprintln(os.Stderr, "duplicate case id", c.ID)
			return 2
		}
		ids[c.ID] = true
		if only == "" || strings.Contains(c.ID, only) {
			todo = append(todo, i)
		}
	}
	nw := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if n, e := strconv.Atoi(s); e == nil && n > 0 {
			nw = n
		}
	}
	if nw > len(todo) {
		nw = len(todo)
	}
	var mu sync.Mutex
	next := 0
	done := 0
	skipped := 0
	capped := false
	states := map[uint64]bool{}
	nontriv := map[uint64]bool{}
	outcomes := map[string]int{}
	var samples []string
	var trans, traces, evals int
	var fails []caseFailure
	var deaths []int
	deathMsg := map[int]string{}
	newKeys := map[string]bool{}
	type slow struct {
		id string
		ms int64
	}
	var slows []slow
	take := func() (int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(todo) {
			return 0, false
		}
		if failfast && len(newKeys) > 0 {
			skipped = len(todo) - next
			return 0, false
		}
		if time.Since(start) > deadline || len(newKeys) >= 25 || len(deaths) >= 8 {
			skipped = len(todo) - next
			return 0, false
		}
		i := todo[next]
		next++
		return i, true
	}
	merge := func(r *Result, hist []int) {
		mu.Lock()
		defer mu.Unlock()
		done++
		trans += r.Trans
		traces += r.Traces
		evals += r.Evals
		capped = capped || r.Capped
		for _, s := range r.States {
			states[s] = true
		}
		for _, s := range r.NonTriv {
			nontriv[s] = true
		}
		for o, n := range r.Outcomes {
			outcomes[o] += n
		}
		if len(samples) < 12 {
			samples = append(samples, r.Samples...)
		}
		slows = append(slows, slow{cases[r.Idx].ID, r.MS})
		for _, f := range r.Fails {
			fails = append(fails, caseFailure{idx: r.Idx, f: f, hist: append([]int{}, hist...)})
			if isKnown(f.Key) == nil {
				newKeys[f.Key] = true
			}
		}
	}
	var wg sync.WaitGroup
	infra := ""
	for n := 0; n < nw; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			var hist []int
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				i, ok := take()
				if !ok {
					return
				}
				if w != nil && w.bin != binFor(cases[i].ID) {
					w.stop()
					w = nil
				}
				if w == nil {
					var e error
					if w, e = startWorker(p.ID, tier, binFor(cases[i].ID)); e != nil {
						mu.Lock()
						infra = e.Error()
						mu.Unlock()
						return
					}
					hist = nil
				}
				r, e := w.do(i, hang)
				if e != nil {
					w.stop()
					msg := "worker died: " + firstLines(string(w.err.b), 12)
					if e == errHang {
						msg = fmt.Sprintf("no answer within %s", hang)
					}
					w = nil
					mu.Lock()
					deaths = append(deaths, i)
					deathMsg[i] = msg
					mu.Unlock()
					continue
				}
				merge(r, hist)
				hist = append(hist, i)
			}
		}()
	}
	wg.Wait()
	if infra != "" {
		fmt.Fprintln(os.Stderr, "infrastructure:", infra)
		return 2
	}
	// A case that ended its worker is run again, alone, before it is believed.
	sort.Ints(deaths)
	for n, i := range deaths {
		if n >= 2 && len(newKeys) > 0 {
			break
		}
		w, e := startWorker(p.ID, tier, binFor(cases[i].ID))
		if e != nil {
			fmt.Fprintln(os.Stderr, "infrastructure:", e)
			return 2
		}
		r, e := w.do(i, hang)
		stderr := ""
		if e != nil {
			w.stop()
			stderr = firstLines(string(w.err.b), 12)
		}
		if e == nil {
			merge(r, nil)
			w.stop()
			continue
		}
		key := cases[i].ID + "/death"
		msg := "the process running this case died: " + stderr
		if e == errHang {
			key = cases[i].ID + "/hang"
			msg = fmt.Sprintf("the case did not finish within %s, twice", hang)
		}
		fails = append(fails, caseFailure{idx: i, f: Failure{key, msg}})
		if isKnown(key) == nil {
			newKeys[key] = true
		}
	}
	// classify
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].idx < fails[b].idx })
	knownSeen := map[string]bool{}
	var fresh []caseFailure
	freshSeen := map[string]bool{}
	shown := map[string][]caseFailure{} // the first cases that show a failure
	for _, f := range fails {
		if k := isKnown(f.f.Key); k != nil {
			if !knownSeen[f.f.Key] {
				knownSeen[f.f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			}
			continue
		}
		if len(shown[f.f.Key]) < 4 {
			shown[f.f.Key] = append(shown[f.f.Key], f)
		}
		if !freshSeen[f.f.Key] {
			freshSeen[f.f.Key] = true
			fresh = append(fresh, f)
		}
	}
	// Believe a failure only if re-running its case reproduces it; where none of
	// the cases that showed it does so alone, the history of the process that
	// showed it is run again, and counts if it ends the same way.
	var confirmed []caseFailure
	flaky := 0
	rerunBudget := time.Now().Add(120 * time.Second)
	infraErr := error(nil)
	rerun := func(f caseFailure, hist []int, until time.Time) bool {
		w, e := startWorker(p.ID, tier, binFor(cases[f.idx].ID))
		if e != nil {
			infraErr = e
			return false
		}
		defer w.stop()
		for _, i := range hist {
			if time.Now().After(until) {
				return false
			}
			if _, e := w.do(i, hang); e != nil {
				return false
			}
		}
		r, e := w.do(f.idx, hang)
		if e != nil {
			return false
		}
		for _, g := range r.Fails {
			if g.Key == f.f.Key {
				return true
			}
		}
		return false
	}
	for _, f := range fresh {
		if strings.HasSuffix(f.f.Key, "/death") || strings.HasSuffix(f.f.Key, "/hang") {
			confirmed = append(confirmed, f) // already re-run
			continue
		}
		if len(confirmed) >= 6 {
			break
		}
		ok := false
		for _, c := range shown[f.f.Key] {
			for k := 0; k < 5 && !ok && infraErr == nil; k++ {
				if time.Now().After(rerunBudget) && k >= 1 {
					break
				}
				ok = rerun(c, nil, time.Time{})
			}
			if ok {
				f = c
				break
			}
		}
		if !ok {
			until := time.Now().Add(240 * time.Second)
			for _, c := range shown[f.f.Key] {
				if len(confirmed) > 0 || time.Now().After(until) || infraErr != nil {
					break
				}
				if ok = rerun(c, c.hist, until); ok {
					f = c
					f.full = true
					break
				}
			}
		}
		if infraErr != nil {
			fmt.Fprintln(os.Stderr, "infrastructure:", infraErr)
			return 2
		}
		if ok {
			confirmed = append(confirmed, f)
		} else {
			flaky++
			fmt.Fprintf(os.Stderr, "not reproduced, not believed: %s: %s\n", f.f.Key, f.f.Detail)
		}
	}
	if len(outcomes) == 0 && done > 0 {
		outcomes["case agrees with the model"] = done
	}
	exhaustive := skipped == 0 && !capped && only == ""
	// evidence
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 && len(cases) > 0 {
		samples = append(samples, cases[0].ID)
	}
	families := map[string]int{} // cases by the first part of their name
	for _, c := range cases {
		families[strings.SplitN(c.ID, "/", 2)[0]]++
	}
	cov := map[string]interface{}{
		"exhaustive":        exhaustive,
		"case_families":     families,
		"samples":           samples,
		"cases":             len(cases),
		"cases_run":         done,
		"distinct_outcomes": len(outcomes),
		"outcomes":          trimOutcomes(outcomes),
		"rule":              p.Rule,
	}
	if p.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces
	} else {
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = len(nontriv)
	}
	if flaky > 0 {
		cov["unreproduced_failures"] = flaky
	}
	if skipped > 0 {
		cov["cases_skipped_at_deadline"] = skipped
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        tier,
		"seed":        verifSeed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Notes,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(confirmed),
	}
	if err := writeJSON(filepath.Join(verifDir(), "evidence", p.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: cases %d/%d states %d transitions %d traces %d evaluations %d nontrivial %d outcomes %d exhaustive=%v wall %.1fs\n",
		p.ID, tier, done, len(cases), len(states), trans, traces, evals, len(nontriv), len(outcomes), exhaustive, time.Since(start).Seconds())
	if os.Getenv("VERIF_SLOW") != "" {
		sort.Slice(slows, func(a, b int) bool { return slows[a].ms > slows[b].ms })
		var tot int64
		for _, s := range slows {
			tot += s.ms
		}
		fmt.Println("total case ms", tot)
		for i := 0; i < len(slows) && i < 12; i++ {
			fmt.Println("  slow", slows[i].id, slows[i].ms)
		}
	}
	if len(confirmed) == 0 {
		return 0
	}
	for _, f := range confirmed {
		name := fmt.Sprintf("%s-%016x.json", p.ID, h64(f.f.Key))
		path := filepath.Join(verifDir(), "replays", name)
		var before []string
		if f.full {
			for _, i := range f.hist {
				before = append(before, cases[i].ID)
			}
		}
		_ = writeJSON(path, map[string]interface{}{
			"before":   before,
			"property": p.ID, "tier": tier, "seed": verifSeed,
			"case": cases[f.idx].ID, "key": f.f.Key, "detail": f.f.Detail,
			"replay": "bash /verif/check.sh replay " + path,
		})
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  key: %s\n  %s\n", f.f.Key, strings.ReplaceAll(firstLines(f.f.Detail, 14), "\n", "\n  "))
	}
	return 1
}

func trimOutcomes(m map[string]int) map[string]int {
	if len(m) <= 40 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	o := map[string]int{}
	for _, k := range ks[:40] {
		o[k] = m[k]
	}
	return o
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeJSON(path string, v interface{}) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Property, Tier, Case, Key string
		Seed                      int64
		Before                    []string
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[m.Property]
	if p == nil {
		return 2
	}
	verifSeed = m.Seed
	byID := map[string]Case{}
	for _, c := range p.cases(m.Tier) {
		byID[c.ID] = c
	}
	for _, id := range m.Before {
		if c, ok := byID[id]; ok {
			runCase(c, m.Tier)
		}
	}
	for _, c := range p.cases(m.Tier) {
		if c.ID != m.Case {
			continue
		}
		r := runCase(c, m.Tier)
		for _, f := range r.Fails {
			if f.Key == m.Key {
				fmt.Printf("VIOLATION property=%s replay=%s\n  key: %s\n  %s\n", m.Property, path, f.Key, f.Detail)
				return 1
			}
		}
		fmt.Println("not reproduced:", m.Key)
		return 0
	}
	fmt.Println("no such case:", m.Case)
	return 2
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc check|worker PROP TIER | mc replay FILE | mc list TIER")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		path := os.Args[2]
		asTest(func() { os.Exit(replayMain(path)) })
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Level, len(props[id].cases(os.Args[2])))
		}
		return
	}
	p := props[os.Args[2]]
	if p == nil || len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(p, os.Args[3]))
	case "worker":
		tier := os.Args[3]
		asTest(func() { workerMain(p, tier) })
	}
	os.Exit(2)
}
