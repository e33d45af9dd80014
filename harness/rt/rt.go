// Package rt is the run-time of the monitors: case enumeration, evidence and violation reporting.
package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Ctx collects what a check observed.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Only    string // only run this case, if set
	EvDir   string
	Start   time.Time
	Rule    string
	Assume  []string
	mu      sync.Mutex
	evals   int
	distint map[string]int
	counts  map[string]int
	samples []any
	viol    []string
	sigs    map[string]int
	known   map[string]string
	knownN  map[string]int
	incon   []string
}

// New returns a Ctx.
func New(prop, tier string, seed int64, evdir, only string) *Ctx {
	return &Ctx{
		Prop: prop, Tier: tier, Seed: seed, EvDir: evdir, Only: only, Start: time.Now(),
		distint: map[string]int{}, counts: map[string]int{}, sigs: map[string]int{}, known: map[string]string{},
		knownN: map[string]int{},
	}
}

// Thorough reports if this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a quick-tier case count.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SCALE")); err == nil {
		// development aid: a part of the cases, in percent
		return quick*s/100 + 1
	}
	return quick
}

// Known registers a known finding by signature.
func (c *Ctx) Known(sig, text string) { c.known[sig] = text }

// Case is one generated case.
type Case struct {
	*Ctx
	Name string
	Rng  *rand.Rand
	log  []string
	lmu  sync.Mutex
}

// Rng returns a deterministic generator for the named case.
func (c *Ctx) Rng(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%s", c.Prop, c.Seed, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Run runs cases 0..n-1 of a family.
func (c *Ctx) Run(family string, n int, f func(k *Case)) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s#%d", family, i)
		if c.Only != "" && c.Only != name {
			continue
		}
		c.one(name, f)
	}
}

// RunParallel is as Run, on several goroutines; use it only where f shares no global state between cases.
func (c *Ctx) RunParallel(family string, n int, f func(k *Case)) {
	c.RunWide(family, n, runtime.NumCPU(), f)
}

// RunWide is as RunParallel with a given number of goroutines, for cases that mostly wait.
func (c *Ctx) RunWide(family string, n, workers int, f func(k *Case)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c.one(fmt.Sprintf("%s#%d", family, i), f)
			}
		}()
	}
	for i := 0; i < n; i++ {
		if c.Only != "" && c.Only != fmt.Sprintf("%s#%d", family, i) {
			continue
		}
		if c.enough() {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// enough is true if so many cases fail that more of them tell nothing.
func (c *Ctx) enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, x := range c.sigs {
		n += x
	}
	return n >= 40
}

func (c *Ctx) one(name string, f func(k *Case)) {
	k := &Case{Ctx: c, Name: name, Rng: c.Rng(name)}
	done := make(chan struct{})
	defer close(done)
	go watch(k, done)
	Guard(k, func() { f(k) })
}

// Guard runs f; a panic of the library is a violation.
func Guard(k *Case, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if LibraryPanic(st) {
				k.Violation("panic: "+PanicSite(st), map[string]any{"panic": fmt.Sprint(r), "stack": st})
				return
			}
			if _, ok := r.(runtime.Error); ok {
				// what the library gave out was not usable; does not happen with what it gives out normally
				k.Violation("the result of a call is not usable", map[string]any{"panic": fmt.Sprint(r), "stack": st})
				return
			}
			fmt.Fprintf(os.Stderr, "harness panic in case %s: %v\n%s\n", k.Name, r, st)
			os.Exit(3)
		}
	}()
	f()
}

// HangTicks is the number of seconds (counted as ticks, so that a paused machine does not count) after which a case that
// normally takes milliseconds is said not to terminate.
var HangTicks = 300

// watch reports a case that does not end.
func watch(k *Case, done chan struct{}) {
	t := time.NewTicker(time.Second)
	defer t.Stop()
	for i := 0; i < HangTicks; i++ {
		select {
		case <-done:
			return
		case <-t.C:
		}
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	k.Violation("a call does not return", map[string]any{"ticks": HangTicks, "goroutines": string(buf)})
	k.Finish("exploration")
	os.Exit(1)
}

// LibDir is where the source of the library is; functions may be inlined into those of other packages, so that names of
// frames do not tell whose code it is.
var LibDir = "?"

var harnessDir = func() string {
	_, f, _, _ := runtime.Caller(0)
	return filepath.Dir(filepath.Dir(f))
}()

// Frame is a frame of a stack trace.
type Frame struct {
	Func    string
	Lib     bool // the library's code
	Harness bool
}

var reFile = regexp.MustCompile(`^\s+(/\S+\.go):\d+( \+0x[0-9a-f]+)?( fp=\S+ sp=\S+ pc=\S+)?\s*$`)

// Frames reads the stack trace of a panic, of a fatal error or of the race detector.
func Frames(lines []string) (fs []Frame) {
	for i := 1; i < len(lines); i++ {
		m := reFile.FindStringSubmatch(lines[i])
		if m == nil {
			continue
		}
		fn := strings.TrimSpace(lines[i-1])
		if strings.HasPrefix(fn, "created by ") {
			break
		}
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		f := Frame{Func: fn, Lib: strings.HasPrefix(m[1], LibDir+"/"), Harness: strings.HasPrefix(m[1], harnessDir+"/")}
		if f.Lib && !strings.HasPrefix(fn, "github.com/go-oidfed/lib") {
			// inlined
			p := strings.Split(fn, ".")
			for len(p) > 1 && !strings.Contains(p[0], "/") && (p[0] == "main" || p[0][0] >= 'a' && p[0][0] <= 'z') {
				p = p[1:]
			}
			f.Func = filepath.Base(m[1]) + ":" + strings.Join(p, ".")
		}
		fs = append(fs, f)
	}
	return
}

func panicFrames(stack string) []Frame {
	ls := strings.Split(stack, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			return Frames(ls[i+2:]) // without the frame of panic itself
		}
	}
	return nil
}

// LibraryPanic reports if the code that panicked is below a frame of the library, i.e. if, going up from
// the panic, a frame of the library is met before one of the harness.
func LibraryPanic(stack string) bool {
	for _, f := range panicFrames(stack) {
		if f.Lib || f.Harness {
			return f.Lib
		}
	}
	return false
}

// PanicSite gives the innermost library function of a panic.
func PanicSite(stack string) string {
	for _, f := range panicFrames(stack) {
		if f.Lib {
			return f.Func
		}
	}
	return "?"
}

// Logf records an event of the history of this case (kept for the replay file only).
func (k *Case) Logf(f string, a ...any) {
	k.lmu.Lock()
	defer k.lmu.Unlock()
	if len(k.log) < 2000 {
		k.log = append(k.log, fmt.Sprintf(f, a...))
	}
}

// Eval counts an evaluation; key identifies what was observed; an empty key is a trivial case.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		c.distint[key]++
	}
}

// Count counts an observed event.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counts[name] += n
}

// Sample stores an example (only some are kept).
func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
}

// Inconclusive notes a case whose observation could not be judged.
func (c *Ctx) Inconclusive(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.incon = append(c.incon, fmt.Sprintf(f, a...))
}

// Violated tells whether a violation was reported.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) > 0
}

// Violation reports a violation. sig classifies it (without case specific values).
func (k *Case) Violation(sig string, detail map[string]any) {
	k.lmu.Lock()
	log := append([]string(nil), k.log...)
	k.lmu.Unlock()
	k.Ctx.violation(k.Name, sig, detail, log)
}

func (c *Ctx) violation(name, sig string, detail map[string]any, log []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t, ok := c.known[sig]; ok {
		c.knownN[sig]++
		if c.knownN[sig] == 1 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, t)
		}
		return
	}
	c.sigs[sig]++
	if c.sigs[sig] > 3 || len(c.viol) >= 20 {
		return
	}
	dir := filepath.Join(c.EvDir, "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, len(c.viol)+1))
	data, _ := json.MarshalIndent(
		map[string]any{
			"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "case": name, "signature": sig, "detail": detail,
			"history": log,
			"replay":  fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -only '%s'", c.Seed, c.Tier, c.Prop, name),
		}, "", " ",
	)
	_ = os.WriteFile(p, data, 0o644)
	c.viol = append(c.viol, sig)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
	fmt.Printf("  case=%s: %s\n", name, sig)
	short, _ := json.Marshal(detail)
	if len(short) > 1500 {
		short = append(short[:1500], "..."...)
	}
	fmt.Printf("  %s\n", short)
}

// Finish writes the evidence and returns the exit code.
func (c *Ctx) Finish(level string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) == 0 {
		c.samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distint),
		"rule":                c.Rule,
		"samples":             c.samples,
		"observed":            c.counts,
	}
	if len(c.incon) > 0 {
		cov["inconclusive"] = len(c.incon)
		if len(c.incon) > 5 {
			c.incon = c.incon[:5]
		}
		cov["inconclusive_samples"] = c.incon
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": level, "coverage": cov,
		"assumptions": c.Assume,
		"wall_s":      time.Since(c.Start).Seconds(), "violations": len(c.viol),
	}
	if c.Assume == nil {
		delete(ev, "assumptions")
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(c.EvDir, 0o755)
	if c.Only == "" {
		if err := os.WriteFile(filepath.Join(c.EvDir, c.Prop+".json"), data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	var ks []string
	for k, v := range c.counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf(
		"%s %s: %d evaluations, %d distinct, %.1fs; observed %s\n", c.Prop, c.Tier, c.evals, len(c.distint),
		time.Since(c.Start).Seconds(), strings.Join(ks, " "),
	)
	if len(c.sigs) > 0 {
		for s, n := range c.sigs {
			fmt.Printf("  %d x %s\n", n, s)
		}
		return 1
	}
	return 0
}
