package zverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/livekit/psrpc/internal/zverif/zsched"
)

// A workload is a family of cases of one property. Case i is determined by
// (seed, property, workload, i) alone.
type workload struct {
	prop     string
	name     string
	quick    int // cases in the quick tier
	thorough int
	real     bool // runs outside the virtual-time bubble
	exh      bool // the case list enumerates a finite space completely
	run      func(c *C)
}

var workloads []*workload

func reg(prop, name string, quick, thorough int, run func(c *C)) *workload {
	w := &workload{prop: prop, name: name, quick: quick, thorough: thorough, run: run}
	workloads = append(workloads, w)
	return w
}

type event struct {
	T    time.Duration
	What string
}

// C is one case.
type C struct {
	w    *workload
	idx  int
	seed uint64
	Rand *rand.Rand // driver goroutine only

	mu       sync.Mutex
	events   []event
	dropped  int
	sig      uint64
	counts   map[string]int
	viols    []violation
	start    time.Time
	cleanups []func()
	trivial  bool
	sample   string
	shape    string
	nosig    bool
}

type violation struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"` // identifies the specific input/site for known findings
	Msg      string `json:"msg"`
	Case     string `json:"case"`
	Trace    string `json:"trace,omitempty"`
}

func (c *C) Name() string { return fmt.Sprintf("%s:%d", c.w.name, c.idx) }

// Ev records an observed event; what should start with a kind word.
func (c *C) Ev(format string, a ...any) {
	what := format
	if len(a) > 0 {
		what = fmt.Sprintf(format, a...)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	k := what
	if i := strings.IndexByte(k, ' '); i > 0 {
		k = k[:i]
	}
	c.counts["ev."+k]++
	if !c.nosig {
		h := fnv.New64a()
		h.Write([]byte(what))
		c.sig = c.sig*1099511628211 + h.Sum64()
	}
	if len(c.events) < 4000 {
		c.events = append(c.events, event{time.Since(c.start), what})
	} else {
		c.dropped++
	}
}

// Count adds to a counter of the evidence without taking part in the signature.
func (c *C) Count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

// Shape adds static case parameters to the signature.
func (c *C) Shape(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	h := fnv.New64a()
	h.Write([]byte(s))
	c.sig = c.sig*1099511628211 + h.Sum64()
	c.shape += s + " "
	c.mu.Unlock()
}

// Trivial marks the case as not having exercised what it is for.
func (c *C) Trivial() { c.mu.Lock(); c.trivial = true; c.mu.Unlock() }

func (c *C) Violate(rule, format string, a ...any) { c.ViolateKey(rule, "", format, a...) }

func (c *C) ViolateKey(rule, key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) >= 5 {
		return
	}
	c.viols = append(c.viols, violation{Property: c.w.prop, Rule: rule, Key: key, Msg: fmt.Sprintf("[t=%v] %s", time.Since(c.start), msg), Case: c.Name()})
}

func (c *C) Violated() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viols) > 0 }

func (c *C) Cleanup(f func()) { c.mu.Lock(); c.cleanups = append(c.cleanups, f); c.mu.Unlock() }

// Slack bounds the virtual delay the instrumentation may have added to anything.
func (c *C) Slack() time.Duration { return 2*delayBudget + 20*time.Millisecond }

// Settle lets every asynchronous subscription and delivery in progress finish.
func (c *C) Settle() { time.Sleep(delayBudget*2 + 300*time.Millisecond) }

// NewRand derives a generator for a goroutine of the case.
func (c *C) NewRand(k int) *rand.Rand {
	return rand.New(rand.NewSource(int64(mix64(c.seed + uint64(k+1)*0x9e3779b97f4a7c15))))
}

// Within runs f in a goroutine and reports whether it finished within d (virtual).
func (c *C) Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
		}
		return false
	}
}

// Par runs the functions concurrently and waits for all; on timeout it reports a hang.
func (c *C) Par(limit time.Duration, fs ...func()) bool {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	return c.Within(limit, wg.Wait)
}

const delayBudget = 300 * time.Millisecond

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func caseSeed(seed int64, prop, wl string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, wl, i)
	return mix64(h.Sum64())
}

type shardOut struct {
	Cases      int            `json:"cases"`
	Nontrivial []string       `json:"nontrivial"` // distinct signatures of non-trivial cases
	Counts     map[string]int `json:"counts"`
	PerWL      map[string]int `json:"per_workload"`
	Violations []violation    `json:"violations"`
	Samples    []string       `json:"samples"`
	Sites      []string       `json:"sites"`
	SitesTotal int            `json:"sites_total"`
	Delays     uint64         `json:"delays"`
	Yields     uint64         `json:"yields"`
	Steps      uint64         `json:"steps"`
	VirtualS   float64        `json:"virtual_s"`
	WallS      float64        `json:"wall_s"`
	Done       bool           `json:"done"`
	Procs      int            `json:"gomaxprocs"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestMain(m *testing.M) {
	if os.Getenv("ZV_IDS") != "" {
		idChild()
		os.Exit(0)
	}
	if os.Getenv("ZV_PROP") == "" {
		os.Exit(m.Run())
	}
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("ZV_PROP")
	if prop == "" {
		t.Skip("ZV_PROP not set")
	}
	out := os.Getenv("ZV_OUT")
	seed := int64(envInt("ZV_SEED", 1))
	thorough := os.Getenv("ZV_TIER") == "thorough"
	shard, shards := envInt("ZV_SHARD", 0), envInt("ZV_SHARDS", 1)
	only := os.Getenv("ZV_ONLY")
	scale := float64(envInt("ZV_SCALE", 100)) / 100
	debug.SetGCPercent(400)
	if f := os.Getenv("ZV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	wall := wallNow()

	type job struct {
		w *workload
		i int
	}
	var jobs, realJobs []job
	for _, w := range workloads {
		if w.prop != prop {
			continue
		}
		n := w.quick
		if thorough {
			n = w.thorough
		}
		if !w.exh {
			if n = int(float64(n) * scale); n < 1 {
				n = 1
			}
		}
		for i := 0; i < n; i++ {
			if only != "" {
				if only != w.name && only != fmt.Sprintf("%s:%d", w.name, i) {
					continue
				}
			} else if i%shards != shard {
				continue
			}
			if w.real {
				realJobs = append(realJobs, job{w, i})
			} else {
				jobs = append(jobs, job{w, i})
			}
		}
	}
	// interleave the workloads, so that a shard cut short has still tried all
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].i < jobs[b].i })

	o := &shardOut{Counts: map[string]int{}, PerWL: map[string]int{}, Procs: runtime.GOMAXPROCS(0)}
	sigs := map[uint64]bool{}
	perKey := map[string]int{}
	var vstart time.Time

	write := func() {
		o.Sites = zsched.HitSites()
		o.SitesTotal = len(zsched.Sites)
		_, _, o.Delays, o.Yields = zsched.Stats()
		o.WallS = wallNow() - wall
		o.Nontrivial = nil
		for s := range sigs {
			o.Nontrivial = append(o.Nontrivial, strconv.FormatUint(s, 16))
		}
		sort.Strings(o.Nontrivial)
		b, _ := json.Marshal(o)
		if out != "" {
			os.WriteFile(out+".tmp", b, 0o644)
			os.Rename(out+".tmp", out)
		} else {
			fmt.Println(string(b))
		}
	}

	runJob := func(j job, virtual bool) {
		c := &C{w: j.w, idx: j.i, seed: caseSeed(seed, prop, j.w.name, j.i), counts: map[string]int{}, start: time.Now()}
		c.Rand = c.NewRand(1 << 20)
		if out != "" {
			os.WriteFile(out+".cur", []byte(c.Name()), 0o644)
		}
		if virtual {
			zsched.Configure(zsched.Mode(j.i%4), c.seed, delayBudget, 40*time.Millisecond)
		} else {
			zsched.Configure(zsched.Mode(j.i%2), c.seed, 0, 0)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if inPsrpc(st) {
						c.Violate("panic", "panic in the code under test: %v\n%s", r, st)
					} else {
						fmt.Printf("HARNESS-PANIC %s %v\n%s\n", c.Name(), r, st)
						if out != "" {
							os.WriteFile(out+".harness", []byte(fmt.Sprintf("%s: %v\n%s", c.Name(), r, st)), 0o644)
						}
					}
				}
			}()
			j.w.run(c)
		}()
		limit := time.NewTimer(2 * time.Hour)
		select {
		case <-done:
		case <-limit.C:
			c.Violate("hang", "the case did not finish within 2h of virtual time\n%s", psrpcStacks())
		}
		limit.Stop()
		c.mu.Lock()
		cl := c.cleanups
		c.cleanups = nil
		c.mu.Unlock()
		ct := make(chan struct{})
		go func() {
			defer close(ct)
			for i := len(cl) - 1; i >= 0; i-- {
				cl[i]()
			}
		}()
		lt := time.NewTimer(10 * time.Minute)
		select {
		case <-ct:
		case <-lt.C:
			o.Counts["cleanup_stuck"]++
			if os.Getenv("ZV_VERBOSE") != "" {
				fmt.Println("cleanup stuck in", c.Name(), psrpcStacks())
			}
		}
		lt.Stop()
		if n, site := zsched.Spins(); n > 0 {
			o.Counts["spin_sleeps"] += int(n)
			if n >= 3 {
				c.mu.Lock()
				c.viols = append(c.viols, violation{Property: prop, Rule: "busy-wait", Key: site, Msg: fmt.Sprintf("busy waiting: statements executed without bound at one instant, last at %s (%d times)", site, n), Case: c.Name()})
				c.mu.Unlock()
			}
		}
		o.Steps += zsched.Steps()
		zsched.Disable()
		c.mu.Lock()
		o.Cases++
		o.PerWL[j.w.name]++
		for k, v := range c.counts {
			o.Counts[k] += v
		}
		if !c.trivial {
			sigs[c.sig] = true
			o.Counts["nontrivial_cases"]++
		}
		if len(c.viols) > 0 {
			tr := "shape: " + c.shape + "\n" + c.trace(400)
			for i, v := range c.viols {
				if i == 0 {
					v.Trace = tr
				}
				k := v.Rule + "\x00" + v.Key
				if perKey[k]++; perKey[k] <= 4 && len(o.Violations) < 20 {
					o.Violations = append(o.Violations, v)
				}
				if os.Getenv("ZV_VERBOSE") != "" {
					fmt.Printf("VIOL %s %s [%s] %s\nshape %s\n%s\n", v.Case, v.Rule, v.Key, v.Msg, c.shape, v.Trace)
				}
			}
		} else if len(o.Samples) < 2 && !c.trivial && j.i > 0 {
			o.Samples = append(o.Samples, fmt.Sprintf("%s %s\n%s", c.Name(), c.shape, c.trace(25)))
		}
		grew := len(c.viols) > 0
		c.mu.Unlock()
		if grew && out != "" {
			write()
		}
	}

	for _, j := range realJobs {
		runJob(j, false)
	}
	if len(jobs) == 0 {
		o.Done = true
		write()
		return
	}
	synctest.Test(t, func(t *testing.T) {
		vstart = time.Now()
		for _, j := range jobs {
			runJob(j, true)
			if len(o.Violations) >= 20 {
				break
			}
		}
		o.Done = true
		o.VirtualS = time.Since(vstart).Seconds()
		write()
		pprof.StopCPUProfile()
		os.Exit(0) // endpoints of the Redis bus never end; leave the bubble without waiting
	})
}

func (c *C) trace(n int) string {
	var sb strings.Builder
	ev := c.events
	skip := 0
	if len(ev) > n {
		skip = len(ev) - n
	}
	if skip > 0 {
		fmt.Fprintf(&sb, "... %d earlier events\n", skip+c.dropped)
	}
	for _, e := range ev[skip:] {
		w := e.What
		if len(w) > 300 {
			w = w[:300] + "..."
		}
		fmt.Fprintf(&sb, "%12v %s\n", e.T, w)
	}
	return sb.String()
}

// inPsrpc: does the stack have a frame of the code under test (not the harness) at the
// point of the panic, i.e. before any harness frame?
func inPsrpc(st string) bool {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.Contains(l, "zverif/zs") || strings.Contains(l, "zverif/zcore") {
			continue
		}
		if strings.Contains(l, "psrpc/internal/zverif") {
			return false
		}
		if strings.Contains(l, "livekit/psrpc") {
			return true
		}
	}
	return false
}

// psrpcStacks returns, compacted and grouped, the stacks of goroutines that have frames
// of the code under test, without the idle workers of pooled endpoints.
func psrpcStacks() string {
	buf := make([]byte, 16<<20)
	n := runtime.Stack(buf, true)
	groups := map[string]int{}
	var order []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		lines := strings.Split(g, "\n")
		if len(lines) < 2 {
			continue
		}
		st := lines[0]
		if i := strings.IndexByte(st, '['); i >= 0 {
			st = st[i:]
		}
		var sb strings.Builder
		sb.WriteString(st + "\n")
		keep := false
		for i := 1; i+1 < len(lines); i += 2 {
			fn, at := lines[i], strings.TrimSpace(lines[i+1])
			if k := strings.LastIndexByte(at, ' '); k > 0 {
				at = at[:k]
			}
			psr := strings.Contains(fn, "livekit/psrpc")
			if psr && !strings.Contains(fn, "zverif") && !strings.Contains(fn, "redisPublishQueue).worker") {
				keep = true
			}
			if psr || i == 1 {
				if k := strings.LastIndexByte(fn, '('); k > 0 {
					fn = fn[:k]
				}
				sb.WriteString("   " + strings.TrimPrefix(fn, "github.com/livekit/") + " " + at + "\n")
			}
		}
		if !keep {
			continue
		}
		if groups[sb.String()]++; groups[sb.String()] == 1 {
			order = append(order, sb.String())
		}
		if len(order) > 25 {
			break
		}
	}
	var out strings.Builder
	for _, o := range order {
		fmt.Fprintf(&out, "%dx %s", groups[o], o)
	}
	return out.String()
}

func wallNow() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}
