package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"verif/bubble"
)

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick|thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fShard  = flag.Int("shard", 0, "shard index")
	fShards = flag.Int("shards", 1, "number of shards")
	fOut    = flag.String("out", "", "result file")
	fOnly   = flag.String("only", "", "run only the case with this id (replay)")
	fMode   = flag.String("mode", "plain", "plain|race")
	fScr    = flag.String("scratch", "", "scratch directory")
)

// ---------------------------------------------------------------- results

type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`  // stable identification of what failed
	Case     string   `json:"case"` // id for -only
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace,omitempty"`
}

type Result struct {
	Property   string              `json:"property"`
	Done       bool                `json:"done"`
	Violations []Violation         `json:"violations"`
	Notes      []string            `json:"notes"`
	Errors     []string            `json:"errors"` // errors of the harness itself
	Counters   map[string]int64    `json:"counters"`
	Distinct   map[string]int      `json:"distinct"`
	Hashes     map[string][]uint64 `json:"hashes"`
	Samples    []string            `json:"samples"`
}

type Run struct {
	t     *testing.T
	prop  string
	tier  string
	seed  int64
	mu    sync.Mutex
	res   Result
	dist  map[string]map[uint64]struct{}
	ncase int
	stop  bool
}

// quickScale multiplies the quick workloads of the checks that are fast.
var quickScale = map[string]int{"C05": 3, "C06": 3, "C08": 2, "C10": 3, "C12": 2, "C14": 4, "C15": 2, "C16": 4, "C17": 4, "C18": 3}

// N scales a case count with the tier, and splits it over the shards.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if k := quickScale[r.prop]; k > 0 {
		n *= k
	}
	if r.tier == "thorough" {
		n = thorough
	}
	return n
}

func (r *Run) Thorough() bool { return r.tier == "thorough" }

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.res.Counters[name] += int64(n)
	r.mu.Unlock()
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Distinct records one observed behaviour under a name, returns true when it is new.
func (r *Run) Distinct(name, what string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := r.dist[name]
	if m == nil {
		m = map[uint64]struct{}{}
		r.dist[name] = m
	}
	h := hash64(what)
	_, ok := m[h]
	m[h] = struct{}{}
	return !ok
}

func (r *Run) Sample(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < 6 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r.res.Samples = append(r.res.Samples, s)
	}
}

func (r *Run) harnessError(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Errors) < 20 {
		r.res.Errors = append(r.res.Errors, msg)
	}
}

func (r *Run) flush(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.Distinct = map[string]int{}
	r.res.Hashes = map[string][]uint64{}
	for k, m := range r.dist {
		r.res.Distinct[k] = len(m)
		hs := make([]uint64, 0, len(m))
		for h := range m {
			hs = append(hs, h)
		}
		r.res.Hashes[k] = hs
	}
	if *fOut == "" {
		return
	}
	b, _ := json.Marshal(&r.res)
	tmp := *fOut + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, *fOut)
	}
}

// ---------------------------------------------------------------- cases

// Case is one replayable execution: the same id and seed give the same workload.
type Case struct {
	R     *Run
	ID    string
	Rng   *rand.Rand
	mu    sync.Mutex
	log   []string
	nviol int
	start time.Time
}

func (c *Case) Logf(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	c.log = append(c.log, s)
	if len(c.log) > 6000 {
		c.log = c.log[2000:]
	}
	c.mu.Unlock()
}

// Violate reports a violation of property prop; only the property of the run decides, others are notes.
func (c *Case) Violate(prop, key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	c.mu.Lock()
	c.nviol++
	n := c.nviol
	tr := append([]string(nil), c.log...)
	c.mu.Unlock()
	if len(tr) > 150 {
		tr = tr[len(tr)-150:]
	}
	r := c.R
	r.mu.Lock()
	defer r.mu.Unlock()
	if prop != r.prop {
		if len(r.res.Notes) < 20 {
			r.res.Notes = append(r.res.Notes, fmt.Sprintf("%s %s (case %s): %s", prop, key, c.ID, msg))
		}
		return
	}
	if n > 3 || len(r.res.Violations) >= 30 {
		return
	}
	r.res.Violations = append(r.res.Violations, Violation{Property: prop, Key: key, Case: c.ID, Msg: msg, Trace: tr})
}

var (
	curCase   atomic.Pointer[Case]
	caseBegin atomic.Int64 // real unix nanos
	watchLim  = 60 * time.Second
	// sampleEvery is for mutation campaigns only: with VERIF_SAMPLE=k, one case of k runs, up to the first violation.
	sampleEvery, _ = strconv.Atoi(os.Getenv("VERIF_SAMPLE"))
)

const repoMod = "github.com/kitex-contrib/xds"

// Case runs one case (if it belongs to this shard) with panics turned into violations.
func (r *Run) Case(name string, idx int, fn func(c *Case)) {
	id := fmt.Sprintf("%s/%d", name, idx)
	if *fOnly != "" {
		if *fOnly != id {
			return
		}
	} else if idx%*fShards != *fShard {
		return
	}
	if r.stop || (sampleEvery > 1 && (idx / *fShards)%sampleEvery != 0) {
		return
	}
	c := &Case{R: r, ID: id, Rng: rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%s|%s|%d", r.prop, id, r.seed)) >> 1)))}
	progress(id)
	caseBegin.Store(time.Now().UnixNano())
	curCase.Store(c)
	r.ncase++
	r.Count("cases", 1)
	r.Count("cases."+name, 1)
	c.start = time.Now()
	func() {
		defer c.recovered("case")
		fn(c)
	}()
	curCase.Store(nil)
	if d := time.Since(c.start); d > 5*time.Second {
		r.Count("slow_cases", 1)
	}
	r.mu.Lock()
	if len(r.res.Violations) >= 8 || (sampleEvery > 1 && len(r.res.Violations) > 0) {
		r.stop = true
	}
	r.mu.Unlock()
}

func (c *Case) recovered(where string) {
	if p := recover(); p != nil {
		c.panicked(where, p, string(debug.Stack()))
	}
}

// panicked classifies a recovered panic: in repository code it is a violation of the running property.
func (c *Case) panicked(where string, p interface{}, stack string) {
	msg := fmt.Sprintf("panic in %s: %v", where, p)
	if panicInRepo(stack) {
		c.Logf("%s", stack)
		c.Violate(c.R.prop, "panic", "%s\n%s", msg, trimStack(stack))
		return
	}
	if strings.Contains(msg, "deadlock:") {
		// goroutines of the code under test left blocked after the teardown
		c.R.Count("bubbles_with_leaked_goroutines", 1)
		return
	}
	c.R.harnessError(fmt.Sprintf("case %s: %s\n%s", c.ID, msg, trimStack(stack)))
}

// panicInRepo tells whether the innermost frames below the panic belong to the repository
// (frames of libraries called by it included, frames of the harness above it excluded).
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	ls := strings.Split(stack[i:], "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, repoMod+"/") || strings.Contains(l, " "+repoMod+"/") {
			return true
		}
		if strings.HasPrefix(l, "verif.") || strings.HasPrefix(l, "verif/") {
			// a closure of the repository inlined into the harness bears the name of its caller
			return i+1 < len(ls) && strings.HasPrefix(ls[i+1], "\t/") && !strings.HasPrefix(ls[i+1], "\t"+harnessDir+"/") && !strings.Contains(ls[i+1], "_testmain.go")
		}
	}
	return false
}

var harnessDir = func() string {
	_, f, _, _ := runtime.Caller(0)
	return filepath.Dir(f)
}()

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func progress(id string) {
	if *fOut != "" {
		os.WriteFile(*fOut+".cur", []byte(id), 0o644)
	}
}

// Bubble runs f in a synctest bubble. A panic of f is classified, goroutines left behind are only counted.
// A bubble that stops before f has returned is a hang when a goroutine is blocked inside the repository.
func (c *Case) Bubble(f func()) {
	ended := false
	defer func() {
		if p := recover(); p != nil {
			if !ended && strings.Contains(fmt.Sprint(p), "deadlock:") {
				c.hung(fmt.Sprint(p))
				return
			}
			c.panicked("bubble", p, string(debug.Stack()))
		}
	}()
	if *fMode == "race" {
		bubble.Run(func() {
			defer c.recovered("bubble")
			f()
			ended = true
		})
		return
	}
	synctest.Test(c.R.t, func(*testing.T) {
		defer c.recovered("bubble")
		f()
		ended = true
	})
}

var bubbleID = regexp.MustCompile(`^goroutine \d+ [^\n]*synctest bubble (\d+)`)

// hung: every goroutine of the bubble is blocked for good, the one of the case included.
func (c *Case) hung(msg string) {
	if c.nviol > 0 {
		return // reported already
	}
	buf := make([]byte, 8<<20)
	// the goroutines of the last bubble that have called into the repository from outside
	var bs []string
	last := 0
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		m := bubbleID.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		id, _ := strconv.Atoi(m[1])
		if id < last {
			continue
		}
		if id > last {
			last, bs = id, nil
		}
		body, by, _ := strings.Cut(g, "\ncreated by ")
		at, own := strings.Index(body, "\n"+repoMod+"/"), strings.Index(body, "\nverif")
		if at >= 0 && (own < 0 || at < own) && !strings.HasPrefix(by, repoMod+"/") {
			bs = append(bs, trimStack(g))
		}
	}
	sort.Strings(bs)
	if len(bs) == 0 {
		c.R.harnessError(fmt.Sprintf("case %s: %s, no goroutine is blocked inside the repository", c.ID, msg))
		return
	}
	if len(bs) > 12 {
		bs = bs[:12]
	}
	c.Violate(c.R.prop, "hang", "%s: goroutines blocked inside the repository:\n%s", msg, strings.Join(bs, "\n\n"))
}

// watchdog runs outside any bubble, in real time. A case that makes no progress is decided from the goroutine dump.
func (r *Run) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		c := curCase.Load()
		if c == nil {
			continue
		}
		if time.Since(time.Unix(0, caseBegin.Load())) < watchLim {
			continue
		}
		buf := make([]byte, 8<<20)
		d1 := string(buf[:runtime.Stack(buf, true)])
		time.Sleep(2 * time.Second)
		if curCase.Load() != c {
			continue
		}
		d2 := string(buf[:runtime.Stack(buf, true)])
		b1, b2 := blockedInRepo(d1), blockedInRepo(d2)
		// the same goroutines are still blocked on a lock or a channel inside the repository
		same := []string{}
		for g, s := range b1 {
			if b2[g] == s {
				same = append(same, s)
			}
		}
		sort.Strings(same)
		if len(same) > 0 {
			if len(same) > 12 {
				same = same[:12]
			}
			c.Violate(r.prop, "hang", "no progress for %v: goroutines blocked inside the repository:\n%s", watchLim, strings.Join(same, "\n\n"))
		} else if spin := r.spinning(c); len(spin) > 0 {
			c.Violate(r.prop, "livelock", "no progress for %v: goroutines of the repository keep running:\n%s", watchLim, strings.Join(spin, "\n\n"))
		} else {
			r.harnessError(fmt.Sprintf("case %s: inconclusive, no progress for %v\n%s", c.ID, watchLim, trimStack(d2)))
		}
		r.flush(false)
		os.Exit(3)
	}
}

// spinning returns the goroutines started by the repository that are caught running in most of several samples,
// while the case they belong to stands still.
func (r *Run) spinning(c *Case) []string {
	buf := make([]byte, 8<<20)
	seen, last := map[string]int{}, map[string]string{}
	const samples = 12
	for i := 0; i < samples; i++ {
		time.Sleep(250 * time.Millisecond)
		if curCase.Load() != c {
			return nil
		}
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			head, body, _ := strings.Cut(g, "\n")
			if !strings.Contains(head, "[run") || !strings.Contains(body, "created by "+repoMod+"/") || !strings.Contains(body, repoMod+"/") {
				continue
			}
			id := strings.Fields(head)[1]
			seen[id]++
			last[id] = trimStack(g)
		}
	}
	var out []string
	for id, n := range seen {
		if n >= samples/2 {
			out = append(out, last[id])
		}
	}
	sort.Strings(out)
	return out
}

// blockedInRepo returns the goroutines waiting for a lock, or for a channel, with a frame of the repository.
func blockedInRepo(dump string) map[string]string {
	out := map[string]string{}
	for _, g := range strings.Split(dump, "\n\n") {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 {
			continue
		}
		head := g[:nl]
		if !strings.Contains(head, "sync.") && !strings.Contains(head, "semacquire") && !strings.Contains(head, "chan ") && !strings.Contains(head, "select") {
			continue
		}
		// a receiver parked in the fake's Recv is idle, not blocked
		if strings.Contains(g, "(*Stream).Recv") || !strings.Contains(g, repoMod+"/") {
			continue
		}
		if strings.Contains(g, "created by") {
			body := g[nl:]
			if i := strings.LastIndex(body, "created by"); i >= 0 && !strings.Contains(body[:i], repoMod+"/") {
				continue
			}
		}
		// the idle loops of the client and of the cleaner wait in a select
		if strings.Contains(head, "[select") {
			continue
		}
		id := strings.Fields(head)[1]
		lines := strings.Split(g[nl+1:], "\n")
		keep := []string{}
		for _, l := range lines {
			if !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				keep = append(keep, l)
			}
			if len(keep) > 12 {
				break
			}
		}
		st := head
		if i := strings.Index(st, "["); i >= 0 {
			st = st[i:]
		}
		if i := strings.Index(st, ","); i >= 0 {
			st = st[:i] + "]"
		}
		out[id] = st + "\n" + strings.Join(keep, "\n")
	}
	return out
}

// ---------------------------------------------------------------- entry

var checks = map[string]func(r *Run){}

func register(prop string, f func(r *Run)) { checks[prop] = f }

func TestVerif(t *testing.T) {
	if *fProp == "" {
		t.Skip("no property")
	}
	f := checks[*fProp]
	if f == nil {
		t.Fatalf("unknown property %s", *fProp)
	}
	r := &Run{t: t, prop: *fProp, tier: *fTier, seed: *fSeed, dist: map[string]map[uint64]struct{}{}}
	r.res.Property = *fProp
	r.res.Counters = map[string]int64{}
	if *fMode == "race" {
		watchLim = 180 * time.Second
	}
	if sampleEvery > 1 {
		watchLim /= 4
	}
	setup(r)
	go r.watchdog()
	f(r)
	r.flush(true)
	for _, v := range r.res.Violations {
		fmt.Printf("VIOLATED %s %s case=%s: %s\n", v.Property, v.Key, v.Case, v.Msg)
		if testing.Verbose() {
			for _, l := range v.Trace {
				fmt.Println("    ", l)
			}
		}
	}
	for _, v := range r.res.Notes {
		fmt.Printf("NOTE %s\n", v)
	}
	for _, v := range r.res.Errors {
		fmt.Printf("HARNESS-ERROR %s\n", v)
	}
	if testing.Verbose() {
		ks := []string{}
		for k := range r.res.Counters {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %s = %d\n", k, r.res.Counters[k])
		}
		for k, v := range r.res.Distinct {
			fmt.Printf("  distinct %s = %d\n", k, v)
		}
	}
}
