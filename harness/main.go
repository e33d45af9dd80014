// Command verifharness runs the monitors of one property against the library.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	oidfed "github.com/go-oidfed/lib"

	"github.com/go-oidfed/lib/verifharness/fed"
	"github.com/go-oidfed/lib/verifharness/rt"
)

type property struct {
	level string
	run   func(c *rt.Ctx)
	// race marks that data race reports decide (part of) the property
	race bool
}

var properties = map[string]property{}

func register(id string, p property) {
	if p.level == "" {
		p.level = "exploration"
	}
	properties[id] = p
}

func main() {
	pc := reflect.ValueOf(oidfed.GetEntityConfiguration).Pointer()
	f, _ := runtime.FuncForPC(pc).FileLine(pc)
	rt.LibDir = filepath.Dir(f)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	only := flag.String("only", "", "run only this case")
	evdir := flag.String("evdir", "/verif/evidence", "evidence directory")
	child := flag.Bool("child", false, "run in this process")
	limit := flag.Duration("limit", 840*time.Second, "wall clock limit")
	flag.Parse()
	p, ok := properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if !*child {
		os.Exit(supervise(*prop, p, *tier, *seed, *only, *evdir, *limit))
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(64 << 20)
	switch *prop {
	case "C05", "C13", "C14":
		// what is logged must neither fail nor race
		log.SetOutput(io.Discard)
		oidfed.EnableDebugLogging()
	}
	fed.StartNetwork()
	c := rt.New(*prop, *tier, *seed, *evdir, *only)
	for _, k := range loadKnown(*prop) {
		c.Known(k.Signature, k.Text)
	}
	p.run(c)
	os.Exit(c.Finish(p.level))
}

type known struct {
	Property, Signature, Text string
}

// loadKnown reads the committed known findings (fixed entries suppress nothing).
func loadKnown(prop string) (r []known) {
	exe := os.Getenv("VERIF_KNOWN")
	if exe == "" {
		return nil
	}
	data, err := os.ReadFile(exe)
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []known `json:"findings"`
	}
	if err = json.Unmarshal(data, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(3)
	}
	for _, k := range doc.Findings {
		if k.Property == prop {
			r = append(r, k)
		}
	}
	return
}

var reGoroutine = regexp.MustCompile(`(?m)^goroutine \d+ `)

// supervise runs the child and turns crashes, data races and hangs into verdicts.
func supervise(prop string, p property, tier string, seed int64, only, evdir string, limit time.Duration) int {
	dir, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	args := []string{
		"-child", "-prop", prop, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-only", only, "-evdir", evdir,
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], args...)
	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGQUIT) }
	cmd.WaitDelay = 20 * time.Second
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(&errb)
	cmd.Env = append(
		os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all",
		"TMPDIR="+dir,
	)
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	stderr := errb.String()
	report := func(sig, text string) {
		rd := filepath.Join(evdir, "replay")
		_ = os.MkdirAll(rd, 0o755)
		f := filepath.Join(rd, fmt.Sprintf("%s-%s.txt", prop, strings.SplitN(sig, ":", 2)[0]))
		_ = os.WriteFile(
			f, []byte(fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s\n%s\n\n%s", seed, tier, prop, sig, text)),
			0o644,
		)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", prop, f, sig)
	}
	bad := false
	if sites, text := races(dir); len(sites) > 0 {
		if p.race {
			for _, s := range sites {
				fmt.Println("  data race:", s)
			}
			report("race: "+sites[0], text)
			bad = true
		} else {
			fmt.Println("note: data races (decided by another property):", strings.Join(sites, "; "))
		}
	}
	switch {
	case ctx.Err() != nil:
		fmt.Fprintln(os.Stderr, tail(stderr, 6000))
		fmt.Println("inconclusive: wall clock limit reached")
		if bad {
			return 1
		}
		return 3
	case code == 0 && err == nil:
	case code == 1:
		bad = true
	default:
		// crash of the process: whose fault?
		if site := crashSite(stderr); site != "" {
			report("crash: "+site, stderr)
			bad = true
		} else {
			fmt.Fprintln(os.Stderr, tail(stderr, 8000))
			return 3
		}
	}
	if bad {
		return 1
	}
	if code == 0 && len(stderr) > 0 && os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintln(os.Stderr, tail(stderr, 3000))
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// crashSite finds the library function in which a fatal error happened, if any.
func crashSite(stderr string) string {
	i := strings.Index(stderr, "fatal error: ")
	if j := strings.Index(stderr, "panic: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		if j := strings.Index(stderr, "stack overflow"); j >= 0 {
			i = j
		} else {
			return ""
		}
	}
	head := strings.SplitN(stderr[i:], "\n", 2)[0]
	s := stderr[i:]
	g := reGoroutine.FindAllStringIndex(s, 2)
	if len(g) == 0 {
		return ""
	}
	end := len(s)
	if len(g) > 1 {
		end = g[1][0]
	}
	for _, f := range rt.Frames(strings.Split(s[g[0][0]:end], "\n")) {
		if f.Harness {
			return ""
		}
		if f.Lib {
			return f.Func + " (" + head + ")"
		}
	}
	return ""
}

// races collects data race reports in which library code is involved.
func races(dir string) (sites []string, text string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race*"))
	seen := map[string]bool{}
	for _, f := range files {
		data, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(data), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			s := raceSite(blk)
			if s == "" {
				continue
			}
			if !seen[s] {
				seen[s] = true
				sites = append(sites, s)
				text += blk + "\n"
			}
		}
	}
	sort.Strings(sites)
	return
}

// raceSite gives the two innermost library functions of the racing accesses; "" if an access is not below the library.
func raceSite(blk string) string {
	i := strings.Index(blk, "Goroutine ")
	if i > 0 {
		blk = blk[:i]
	}
	var fs []string
	for _, part := range strings.Split(strings.TrimSpace(blk), "\n\n") {
		for _, f := range rt.Frames(strings.Split(part, "\n")) {
			if f.Harness {
				fs = append(fs, "harness")
				break
			}
			if f.Lib {
				fs = append(fs, f.Func)
				break
			}
		}
	}
	lib := false
	for _, f := range fs {
		lib = lib || f != "harness"
	}
	if !lib {
		return ""
	}
	sort.Strings(fs)
	return strings.Join(fs, " <-> ")
}
