package checks

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- configuration -------------------------------------------------------

// scale multiplies the number of cases of every test (1 in the quick tier).
var scale = envFloat("VERIF_SCALE", 1)

// budget is the time one test function may spend generating new cases; when
// it is used up the remaining cases are not run and not counted.
var budget = time.Duration(envFloat("VERIF_BUDGET_S", 240) * float64(time.Second))

func envFloat(name string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return v
	}
	return def
}

// ---- evidence ------------------------------------------------------------

type recorder struct {
	mu       sync.Mutex
	Evals    int
	Distinct map[uint64]struct{}
	Classes  map[string]int
	Samples  []string
	perTest  map[string]int
	Skipped  int
}

var rec = &recorder{
	Distinct: map[uint64]struct{}{},
	Classes:  map[string]int{},
	perTest:  map[string]int{},
}

const maxDistinct = 2_000_000

// kase is one generated case of a property test.
type kase struct {
	test    string
	notes   strings.Builder
	classes map[string]bool
	h       uint64
	nt      bool
}

func (k *kase) class(name string) { k.classes[name] = true }

// nontrivial marks the case as one that exercises the property.
func (k *kase) nontrivial() { k.nt = true }

// note adds to the description (sample, and identity) of the case.
func (k *kase) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	f.Write([]byte(s))
	k.h = k.h*1099511628211 + f.Sum64()
	if k.notes.Len() < 700 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		k.notes.WriteString(s)
		k.notes.WriteString("; ")
	}
}

func (k *kase) finish() {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.Evals++
	rec.perTest[k.test]++
	for c := range k.classes {
		rec.Classes[k.test+":"+c]++
	}
	if k.nt {
		rec.Classes[k.test+":nontrivial"]++
		if len(rec.Distinct) < maxDistinct {
			rec.Distinct[k.h] = struct{}{}
		}
		n := rec.Classes[k.test+":nontrivial"]
		if n == 3 || n == 50 {
			rec.Samples = append(rec.Samples, k.test+": "+k.notes.String())
		}
	}
}

func writeEvidence() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	hashes := make([]string, 0, len(rec.Distinct))
	for h := range rec.Distinct {
		hashes = append(hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(hashes)
	data, _ := json.Marshal(map[string]any{
		"evaluations": rec.Evals,
		"hashes":      hashes,
		"classes":     rec.Classes,
		"samples":     rec.Samples,
		"per_test":    rec.perTest,
		"skipped":     rec.Skipped,
	})
	_ = os.WriteFile(out, data, 0o644)
}

// ---- running -------------------------------------------------------------

// check runs prop on n (times the scale) generated cases.
func check(t *testing.T, n int, prop func(rt *rapid.T, k *kase)) {
	t.Helper()
	checks := int(float64(n) * scale)
	if checks < 1 {
		checks = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	start := time.Now()
	name := t.Name()
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			rec.mu.Lock()
			rec.Skipped++
			rec.mu.Unlock()
			return
		}
		beat(name)
		k := &kase{test: name, classes: map[string]bool{}}
		ok := false
		defer func() {
			if !ok {
				failed = true
			}
			beat("")
			k.finish()
		}()
		prop(rt, k)
		ok = !rt.Failed()
	})
}

// ---- watchdog ------------------------------------------------------------

// The watchdog ends the process when one case makes no progress for very long
// although this process gets scheduled: it counts its own wake-ups, not the
// wall clock, so that a stopped or overloaded machine does not trip it. A case
// takes milliseconds normally.
var (
	beats   atomic.Int64
	current atomic.Value
)

const (
	beatEvery = 20 * time.Millisecond
	maxBeats  = 3000 // at least 60 s of wake-ups
)

// beat tells the watchdog that a case (or a part of a long one) begins.
func beat(name string) {
	current.Store(name)
	beats.Store(0)
}

func watchdog() {
	for {
		time.Sleep(beatEvery)
		name, _ := current.Load().(string)
		if name == "" {
			continue
		}
		if beats.Add(1) < maxBeats {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("WATCHDOG: a case of %s does not end\n%s\n", name, buf)
		if strings.Contains(string(buf), "mmadfox/go-gpsgen") {
			fmt.Println("WATCHDOG-VERDICT: stuck in the code under test")
		}
		os.Exit(70)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	current.Store("")
	go watchdog()
	code := m.Run()
	writeEvidence()
	os.Exit(code)
}

// ---- small helpers -------------------------------------------------------

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
	return v
}

func noErr(err error) {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
}

func harnessFile(name string) string {
	dir := os.Getenv("VERIF_HARNESS")
	if dir == "" {
		dir = "."
	}
	return filepath.Join(dir, name)
}
