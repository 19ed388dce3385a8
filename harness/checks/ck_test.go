package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"verif/harness/sim"
)

// Ck is one run of one check: it derives all randomness from the seed, counts what the monitors observed and records
// violations.
type Ck struct {
	T      *testing.T
	ID     string
	Tier   string
	Seed   uint64
	Shard  int
	Shards int
	Replay string // "label:index" restricts the run to one case
	known  map[string]string

	mu       sync.Mutex
	Counts   map[string]int64
	hashes   map[uint64]struct{}
	samples  []string
	viols    []Viol
	bySig    map[string]int
	found    map[string]string
	Rule     string
	label    string
	index    int
	caseLog  func() []string
	beat     atomic.Int64
	stop     bool
	firstBad time.Time
	evals    int64
	finished atomic.Bool
}

// Viol is one reported violation.
type Viol struct {
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
	Case  string   `json:"case"`
	Log   []string `json:"log,omitempty"`
	Stack string   `json:"stack,omitempty"`
}

type result struct {
	Counts  map[string]int64  `json:"counts"`
	Hashes  []uint64          `json:"hashes"`
	Samples []string          `json:"samples"`
	Viols   []Viol            `json:"viols"`
	Found   map[string]string `json:"found"`
	Rule    string            `json:"rule"`
	Evals   int64             `json:"evals"`
	Status  string            `json:"status"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Start begins a check.
func Start(t *testing.T, id, rule string) *Ck {
	c := &Ck{T: t, ID: id, Tier: os.Getenv("VERIF_TIER"), Seed: uint64(envInt("VERIF_SEED", 1)), Shard: envInt("VERIF_SHARD", 0),
		Shards: envInt("VERIF_SHARDS", 1), Replay: os.Getenv("VERIF_REPLAY"), Counts: map[string]int64{},
		hashes: map[uint64]struct{}{}, bySig: map[string]int{}, found: map[string]string{}, Rule: rule, known: map[string]string{}}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	if b, err := os.ReadFile(os.Getenv("VERIF_KNOWN")); err == nil {
		var k struct {
			Findings []struct{ Property, Sig, What string } `json:"findings"`
		}
		if err := json.Unmarshal(b, &k); err != nil {
			t.Fatalf("known findings: %v", err)
		}
		for _, f := range k.Findings {
			if f.Property == id {
				c.known[f.Sig] = f.What
			}
		}
	}
	go c.watchdog()
	return c
}

// Thorough selects a size by tier.
func (c *Ck) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Cases runs n numbered cases, this shard's share of them. Each gets its own generator, determined by seed, label and
// index alone.
func (c *Ck) Cases(label string, n int, f func(i int, r *rand.Rand)) {
	for i := 0; i < n; i++ {
		if c.Replay != "" {
			if c.Replay != fmt.Sprintf("%s:%d", label, i) {
				continue
			}
		} else if i%c.Shards != c.Shard {
			continue
		}
		if c.Stopped() {
			return
		}
		c.One(label, i, f)
	}
}

// One runs a single case.
func (c *Ck) One(label string, i int, f func(i int, r *rand.Rand)) {
	h := fnv.New64a()
	h.Write([]byte(label))
	r := rand.New(rand.NewPCG(c.Seed*0x9E3779B97F4A7C15+h.Sum64(), uint64(i)))
	c.mu.Lock()
	c.label, c.index, c.caseLog = label, i, nil
	c.evals++
	c.mu.Unlock()
	c.Beat()
	if p := sim.Catch(func() { f(i, r) }); p != "" {
		c.Fail("panic", "a call panicked: %s", p)
	}
	c.Beat()
}

// Beat tells the watchdog that progress is being made.
func (c *Ck) Beat() { c.beat.Add(1) }

// Log sets where the event log of the current case comes from.
func (c *Ck) Log(f func() []string) {
	c.mu.Lock()
	c.caseLog = f
	c.mu.Unlock()
}

// Stopped reports whether enough violations were collected.
func (c *Ck) Stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	// With a violation in hand, the rest of a long run adds little.
	return c.stop || len(c.viols) > 0 && time.Since(c.firstBad) > time.Minute
}

// Count adds to an observation counter.
func (c *Ck) Count(k string, n int) {
	c.mu.Lock()
	c.Counts[k] += int64(n)
	c.mu.Unlock()
}

// Max raises an observation maximum.
func (c *Ck) Max(k string, n int) {
	c.mu.Lock()
	if int64(n) > c.Counts["max_"+k] {
		c.Counts["max_"+k] = int64(n)
	}
	c.mu.Unlock()
}

// Distinct records a non-trivial case by content.
func (c *Ck) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.mu.Lock()
	if len(c.hashes) < 400000 {
		c.hashes[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *Ck) Sample(f string, a ...any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + ".."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// SampleLog keeps an event log as a sample.
func (c *Ck) SampleLog(l []string) {
	if len(l) > 14 {
		l = append(append([]string(nil), l[:13]...), fmt.Sprintf("... %d more events", len(l)-13))
	}
	c.Sample("%s", strings.Join(l, "; "))
}

// Fail records a violation. sig identifies what fails, for known findings and de-duplication.
func (c *Ck) Fail(sig, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	msg := fmt.Sprintf(f, a...)
	if what, ok := c.known[sig]; ok {
		c.found[sig] = what
		return
	}
	c.bySig[sig]++
	if c.bySig[sig] > 1 {
		return
	}
	v := Viol{Sig: sig, Msg: msg, Case: fmt.Sprintf("%s:%d", c.label, c.index)}
	if c.caseLog != nil {
		v.Log = c.caseLog()
	}
	if c.viols = append(c.viols, v); len(c.viols) == 1 {
		c.firstBad = time.Now()
	}
	// A later case may never end; what was seen stays seen.
	if b, err := json.Marshal(c.viols); err == nil {
		if out := os.Getenv("VERIF_OUT"); out != "" {
			os.WriteFile(out+".partial", b, 0o644)
		}
	}
	fmt.Printf("FAIL %s [%s] case %s: %s\n", c.ID, sig, v.Case, first(msg, 1500))
	if len(c.viols) >= envInt("VERIF_MAXVIOL", 3) {
		c.stop = true
	}
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + ".."
	}
	return s
}

// End writes the result.
func (c *Ck) End() {
	if c.finished.Swap(true) {
		select {} // the watchdog is writing the result and will exit
	}
	c.write("done")
}

func (c *Ck) write(status string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := result{Counts: c.Counts, Samples: c.samples, Viols: c.viols, Found: c.found, Rule: c.Rule, Evals: c.evals, Status: status}
	for h := range c.hashes {
		r.Hashes = append(r.Hashes, h)
	}
	sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
	b, _ := json.Marshal(r)
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(filepath.Clean(out), b, 0o644); err != nil {
			fmt.Println("cannot write result:", err)
			os.Exit(3)
		}
	} else {
		fmt.Printf("evals=%d distinct=%d counts=%v viols=%d\n", c.evals, len(c.hashes), c.Counts, len(c.viols))
		for _, s := range c.samples {
			fmt.Println("  sample:", s)
		}
	}
}

// watchdog turns a deadlocked or endlessly looping case into a verdict. A deadlock is recognised structurally: a
// stop-the-world snapshot in which no goroutine but this one can run. Anything else that makes no progress for minutes
// is inconclusive, unless every sample shows the code under test on the processor.
func (c *Ck) watchdog() {
	last, since := int64(-1), time.Now()
	read, whole := int64(-1), time.Now()
	dead, spin, samples := 0, 0, 0
	for {
		time.Sleep(500 * time.Millisecond)
		if c.finished.Load() {
			return
		}
		if b := c.beat.Load(); b != last {
			last, since = b, time.Now()
			whole = since
			dead, spin, samples = 0, 0, 0
			continue
		}
		if b := sim.BytesRead.Load(); b != read {
			read, since = b, time.Now()
			dead, spin, samples = 0, 0, 0
			if since.Sub(whole) < 300*time.Second {
				continue
			}
		}
		if time.Since(since) < 4*time.Second {
			continue
		}
		self := sim.GoID()
		blocked, lib := true, false
		var stacks []string
		for _, g := range sim.Snapshot() {
			if g.ID == self || strings.Contains(g.Stack, "testing.(*T).Run(") && !strings.Contains(g.Stack, "tinygo-mqtt") {
				continue
			}
			// In a synctest bubble, time stands still while anything is blocked on a lock.
			if !g.Blocked() && !g.Durable {
				blocked = false
				if strings.Contains(g.Stack, "waj334/tinygo-mqtt/mqtt") && (g.State == "running" || g.State == "runnable") {
					lib = true
				}
			}
			if strings.Contains(g.Stack, "tinygo-mqtt") || strings.Contains(g.Stack, "harness/checks") {
				stacks = append(stacks, g.Stack)
			}
		}
		samples++
		if blocked {
			dead++
		} else {
			dead = 0
		}
		if lib {
			spin++
		}
		switch {
		case dead >= 5:
			c.verdict("deadlock", stacks)
		case time.Since(since) > 60*time.Second && spin == samples && samples > 60:
			c.verdict("endless loop", stacks)
		case time.Since(whole) > 300*time.Second:
			if c.finished.Swap(true) {
				return
			}
			fmt.Println("INCONCLUSIVE: no progress;", strings.Join(stacks, "\n---\n"))
			c.write("inconclusive")
			os.Exit(2)
		}
	}
}

func (c *Ck) verdict(kind string, stacks []string) {
	if c.finished.Swap(true) {
		return
	}
	c.Fail(kind, "%s: no goroutine can make progress\n%s", kind, strings.Join(stacks, "\n---\n"))
	c.write(kind)
	os.Exit(0)
}

func init() { runtime.GOMAXPROCS(max(4, runtime.NumCPU())) }
